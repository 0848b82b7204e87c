From 9fff68ff5995b446591a2b2755f1b7fa20595766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 01/30] fix: trim of an all-whitespace string threw
 std::out_of_range

---
 src/utils/utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index d255940..7ef2077 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -80,6 +80,9 @@ namespace detail {
             return "";
         }
         const std::size_t left = str.find_first_not_of(whitespace);
+        if(left == std::string::npos) {
+            return "";
+        }
         const std::size_t right = str.find_last_not_of(whitespace) + 1;
         return str.substr(left, right - left);
     }
-- 
2.43.0


From 341c006a22b7fd5bdd69f05d3a1b42ca335c72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 02/30] fix: formatting INT64_MIN with microfmt negated it as a
 signed integer

---
 src/utils/microfmt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 9dc3edf..f2ee4ae 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -163,12 +163,12 @@ namespace microfmt {
                     case value_type::int64_value:
                         {
                             std::string str;
-                            std::int64_t val = int64_value;
-                            if(val < 0) {
+                            std::uint64_t val = static_cast<std::uint64_t>(int64_value);
+                            if(int64_value < 0) {
                                 str += '-';
-                                val *= -1;
+                                val = 0 - val; // unsigned, INT64_MIN can't be negated
                             }
-                            str += to_string(static_cast<std::uint64_t>(val), options);
+                            str += to_string(val, options);
                             do_write(out, str.begin(), str.end(), options);
                         }
                         break;
-- 
2.43.0


From 0f68abf4cb38c4587e06e84eefe01278fcfd32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 03/30] fix: a negative variable width in a microfmt format
 became a huge width

---
 src/utils/microfmt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index f2ee4ae..38bb47f 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -236,7 +236,8 @@ namespace microfmt {
                                 return false;
                             }
                             it += 2;
-                            options.width = arg_i < args.size() ? args.begin()[arg_i++].unwrap_int() : 0;
+                            // a negative width can't be padded to, don't let it become a huge size_t
+                            options.width = arg_i < args.size() ? std::max(args.begin()[arg_i++].unwrap_int(), 0) : 0;
                         }
                         // try to parse fill/base
                         if(it != fmt_end && *it == ':') {
-- 
2.43.0


From 420da55c18ff79c64db2e7e512c3fd3822302996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 04/30] fix: a width too large for an int overflowed in the
 microfmt width parser

---
 src/utils/microfmt.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 38bb47f..6cfe6c2 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -7,6 +7,7 @@
 #include <initializer_list>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <string>
 #if ((defined(_MSVC_LANG) && _MSVC_LANG >= 201703L) || __cplusplus >= 201703L)
  #include <string_view>
@@ -204,8 +205,12 @@ namespace microfmt {
                 auto scan = it;
                 int num = 0;
                 while(scan != fmt_end && isdigit(*scan)) {
-                    num *= 10;
-                    num += *scan - '0';
+                    int digit = *scan - '0';
+                    if(num > (std::numeric_limits<int>::max() - digit) / 10) {
+                        num = std::numeric_limits<int>::max(); // saturate, the width can't be represented
+                    } else {
+                        num = num * 10 + digit;
+                    }
                     scan++;
                 }
                 if(scan != it) {
-- 
2.43.0


From d62779388a18c7487dd73ca410d29dbd6f24972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 05/30] fix: get_safe_object_frame left an object path longer
 than CPPTRACE_PATH_MAX unterminated

---
 src/binary/safe_dl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/binary/safe_dl.cpp b/src/binary/safe_dl.cpp
index 0ccfd78..ad0f5f4 100644
--- a/src/binary/safe_dl.cpp
+++ b/src/binary/safe_dl.cpp
@@ -25,12 +25,12 @@ namespace detail {
         if(_dl_find_object(reinterpret_cast<void*>(address), &result) == 0) { // thread-safe, signal-safe
             out->address_relative_to_object_start = address - to_frame_ptr(result.dlfo_link_map->l_addr);
             if(result.dlfo_link_map->l_name != nullptr && result.dlfo_link_map->l_name[0] != 0) {
-                std::size_t path_length = std::strlen(result.dlfo_link_map->l_name);
-                std::memcpy(
-                    out->object_path,
-                    result.dlfo_link_map->l_name,
-                    std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1))
+                std::size_t path_length = std::min(
+                    std::strlen(result.dlfo_link_map->l_name),
+                    std::size_t(CPPTRACE_PATH_MAX)
                 );
+                std::memcpy(out->object_path, result.dlfo_link_map->l_name, path_length);
+                out->object_path[path_length] = 0;
             } else {
                 // empty l_name, this means it's the currently running executable
                 memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);
-- 
2.43.0


From 92b6a471380e48a1df51992ab7a889401e2b5f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:00 +0000
Subject: [PATCH 06/30] fix: get_page_protections reported the previous
 mapping's protections for an unmapped page

---
 src/platform/memory_mapping.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/platform/memory_mapping.cpp b/src/platform/memory_mapping.cpp
index e0b092a..09de323 100644
--- a/src/platform/memory_mapping.cpp
+++ b/src/platform/memory_mapping.cpp
@@ -230,7 +230,8 @@ namespace detail {
                 return a < b.low;
             }
         );
-        if(it == mapped_region_info.end()) {
+        // the closest mapping at or below the page may end before it
+        if(it == mapped_region_info.end() || reinterpret_cast<uintptr_t>(page) >= it->high) {
             throw internal_error(
                 "Failed to find mapping for {>16:0h} in /proc/self/maps",
                 reinterpret_cast<uintptr_t>(page)
-- 
2.43.0


From 2a6fd23d5e08a27b6976ceec16695821c0d930bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 07/30] fix: a max_depth of zero captured a frame (or failed an
 assertion) when unwinding with _Unwind

---
 src/unwind/unwind_with_unwind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From 94c6fc6d1c1f630868562bd77a4ccc9a66e51e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 08/30] fix: skipping more frames than the stack has
 underflowed the frame count with execinfo

---
 src/unwind/unwind_with_execinfo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..aafd6a8 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -16,12 +16,18 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
+        if(skip > INT_MAX - hard_max_frames) {
+            return {}; // more than backtrace() can ever count
+        }
         std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
         // thread safe
-        const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        const std::size_t n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        if(n_frames <= skip) {
+            return {}; // everything was skipped
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
-        for(int i = skip; i < n_frames; i++) {
+        for(std::size_t i = skip; i < n_frames; i++) {
             // On x86/x64/arm, as far as I can tell, the frame return address is always one after the call
             // So we just decrement to get the pc back inside the `call` / `bl`
             // This is done with _Unwind too but conditionally based on info from _Unwind_GetIPInfo.
-- 
2.43.0


From d584dbf97cd122150006da8db5c14eaed1743807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 09/30] fix: the address of an interrupted frame was adjusted
 like a return address with libunwind

---
 src/unwind/unwind_with_libunwind.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..ffd2f22 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -29,6 +29,9 @@ namespace detail {
             unw_get_reg(&cursor, UNW_REG_SP, &sp);
             if(skip) {
                 skip--;
+            } else if(unw_is_signal_frame(&cursor)) {
+                // pc is the instruction that caused the signal
+                frames.push_back(to_frame_ptr(pc));
             } else {
                 // pc is the instruction after the `call`, adjust back to the previous instruction
                 frames.push_back(to_frame_ptr(pc) - 1);
-- 
2.43.0


From 2f424d072cad377bf1ea01a04d496a3b355dd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 10/30] fix: the header size of an ELF object in the other byte
 order was compared without swapping it

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..41ab632 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -246,7 +246,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From dde10ce6e3fcb7ec5eba7b333fcbf990c377a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 11/30] fix: an empty symbol table was read through a null
 reference, and failed to be read from a file

---
 src/binary/elf.cpp                | 2 +-
 src/utils/io/file.cpp             | 3 ++-
 src/utils/io/memory_file_view.cpp | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 41ab632..84aca24 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -424,7 +424,7 @@ namespace detail {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
-                auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
+                auto res = file->read_span(span<SymEntry>(buffer.data(), buffer.size()), section.sh_offset);
                 if(!res) {
                     return res.unwrap_error();
                 }
diff --git a/src/utils/io/file.cpp b/src/utils/io/file.cpp
index c440ad0..5f99540 100644
--- a/src/utils/io/file.cpp
+++ b/src/utils/io/file.cpp
@@ -19,7 +19,8 @@ namespace detail {
         if(std::fseek(file_obj, offset, SEEK_SET) != 0) {
             return internal_error("fseek error in {} at offset {}", path(), offset);
         }
-        if(std::fread(buffer.data(), buffer.size(), 1, file_obj) != 1) {
+        // fread reports zero items for zero bytes
+        if(!buffer.empty() && std::fread(buffer.data(), buffer.size(), 1, file_obj) != 1) {
             return internal_error("fread error in {} at offset {} for {} bytes", path(), offset, buffer.size());
         }
         return monostate{};
diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..0fcef60 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -16,7 +16,9 @@ namespace detail {
                 path(), offset, buffer.size(), data.size()
             );
         }
-        std::memcpy(buffer.data(), data.data() + offset, buffer.size());
+        if(!buffer.empty()) {
+            std::memcpy(buffer.data(), data.data() + offset, buffer.size());
+        }
         return monostate{};
     }
 }
-- 
2.43.0


From 45fa1a89d05c54229ebf459ecad4d80f00e93715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 12/30] fix: the bounds check of memory_file_view overflowed
 for large offsets and sizes

---
 src/utils/io/memory_file_view.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 0fcef60..c731816 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,8 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        const auto start = static_cast<std::size_t>(offset);
+        if(start > data.size() || buffer.size() > data.size() - start) { // offset + size could overflow
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From 245fa3ee17bac44429b375bd35ee8d9bbb41f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 13/30] fix: section and symbol names were read at unchecked
 offsets in ELF string tables

---
 src/binary/elf.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 84aca24..8870e08 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -21,6 +21,11 @@
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
+    // the string at an offset in a (null terminated) string table, nullptr if the offset is outside the table
+    static const char* get_string(const std::vector<char>& strtab, std::size_t offset) {
+        return offset < strtab.size() ? strtab.data() + offset : nullptr;
+    }
+
     elf::elf(
         std::unique_ptr<base_file> file,
         bool is_little_endian,
@@ -144,7 +149,10 @@ namespace detail {
             return nullopt;
         }
         if(pc <= it->st_value + it->st_size) {
-            return strtab.data() + it->st_name;
+            const char* name = get_string(strtab, it->st_name);
+            if(name) {
+                return name;
+            }
         }
         return nullopt;
     }
@@ -167,7 +175,8 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
-            if(string_view(strtab.data() + section.sh_name) == ".text") {
+            const char* name = get_string(strtab, section.sh_name);
+            if(name && string_view(name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
                 );
@@ -203,8 +212,9 @@ namespace detail {
         }
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
+            const char* name = strtab.has_value() ? get_string(strtab.unwrap(), entry.st_name) : nullptr;
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                name ? name : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
-- 
2.43.0


From 0ea83328944240b838ed1de145fab383f81b162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 14/30] fix: a corrupted ELF table size was allocated unchecked
 (or overflowed and wrote out of bounds)

---
 src/binary/elf.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 8870e08..935e4ef 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -26,6 +26,15 @@ namespace detail {
         return offset < strtab.size() ? strtab.data() + offset : nullptr;
     }
 
+    // whether a table lies within the file, checked before allocating memory for a possibly corrupted size
+    static bool is_within_file(base_file& file, std::uint64_t offset, std::uint64_t size) {
+        if(size == 0) {
+            return true;
+        }
+        const auto last = offset + (size - 1);
+        return last >= offset && !file.read<char>(static_cast<off_t>(last)).is_error();
+    }
+
     elf::elf(
         std::unique_ptr<base_file> file,
         bool is_little_endian,
@@ -341,6 +350,9 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        if(!is_within_file(*file, section.sh_offset, section.sh_size)) {
+            return internal_error("strtab section {} is not within the file {}", index, file->path());
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -433,6 +445,9 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                if(!is_within_file(*file, section.sh_offset, section.sh_size)) {
+                    return internal_error("symbol table is not within the file {}", file->path());
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(span<SymEntry>(buffer.data(), buffer.size()), section.sh_offset);
                 if(!res) {
-- 
2.43.0


From f220c3820860a44e3b3b886a44b92cecc1279f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 15/30] fix: ELF symbol lookup took the address behind a symbol
 for part of it, and overflowed for symbols at the top

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 935e4ef..9e14ed5 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -157,7 +157,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc - it->st_value < it->st_size) {
             const char* name = get_string(strtab, it->st_name);
             if(name) {
                 return name;
-- 
2.43.0


From d6d4c6e781a8a46cfd975eb2817e9cba8866da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 16/30] fix: ELF symbol lookup could miss an address for
 aliases of different sizes

---
 src/binary/elf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 9e14ed5..f56ad59 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -476,7 +476,8 @@ namespace detail {
                     symbol_table.unwrap().entries.begin(),
                     symbol_table.unwrap().entries.end(),
                     [] (const symtab_entry& a, const symtab_entry& b) {
-                        return a.st_value < b.st_value;
+                        // of symbols with the same address the lookup finds the last, the one covering the others
+                        return a.st_value < b.st_value || (a.st_value == b.st_value && a.st_size < b.st_size);
                     }
                 );
                 symbol_table.unwrap().strtab_link = section.sh_link;
-- 
2.43.0


From e34f798ca67f3e437c2641700b280fc9043327d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 17/30] fix: an empty code range hid another JIT object's range
 starting at the same address

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..9140406 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -55,6 +55,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             for(auto range : ranges) {
+                if(range.low >= range.high) {
+                    continue; // contains nothing, and would hide a range starting at the same address
+                }
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From e163baa0b97875962f29735995fd110abe807c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 18/30] fix: an unparsable line of addr2line output only
 affects its own frame

---
 src/symbols/symbols_with_addr2line.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..6919b29 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -313,7 +313,12 @@ namespace addr2line {
                     auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
                     VERIFY(output.size() == entries_vec.size());
                     for(std::size_t i = 0; i < output.size(); i++) {
-                        update_trace(output[i], i, entries_vec);
+                        // a line that can't be parsed shouldn't affect the other frames of the object
+                        try {
+                            update_trace(output[i], i, entries_vec);
+                        } catch(...) { // NOSONAR
+                            detail::log_and_maybe_propagate_exception(std::current_exception());
+                        }
                     }
                 } catch(...) { // NOSONAR
                     detail::log_and_maybe_propagate_exception(std::current_exception());
-- 
2.43.0


From 9f60d80f9eb6cf096eecbcf30683d3f788a49767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 19/30] fix: a failed read from addr2line isn't a huge output,
 and an interrupted one is continued

---
 src/symbols/symbols_with_addr2line.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 6919b29..3e64518 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <functional>
@@ -134,9 +135,11 @@ namespace addr2line {
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
-            output.insert(output.end(), buffer, buffer + count);
+        ssize_t count = 0;
+        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0 || (count == -1 && errno == EINTR)) {
+            if(count > 0) {
+                output.insert(output.end(), buffer, buffer + count);
+            }
         }
         // TODO: check status from addr2line?
         waitpid(pid, nullptr, 0);
-- 
2.43.0


From 486b4c197d7d8baae2306676e6baa291f79fe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 20/30] fix: frames keep their addresses when there is no
 symbol back end

---
 src/symbols/symbols_with_nothing.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_with_nothing.cpp b/src/symbols/symbols_with_nothing.cpp
index 571e1e7..af0aee6 100644
--- a/src/symbols/symbols_with_nothing.cpp
+++ b/src/symbols/symbols_with_nothing.cpp
@@ -4,17 +4,28 @@
 #include "symbols/symbols.hpp"
 #include "utils/common.hpp"
 
+#include <cstddef>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace nothing {
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i];
+        }
+        return trace;
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i].raw_address;
+            trace[i].object_address = frames[i].object_address;
+            trace[i].filename = frames[i].object_path;
+        }
+        return trace;
     }
 }
 }
-- 
2.43.0


From c56967dc82d65dccf39271b40c944da4cf867e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 21/30] fix: resolving very many frames of one object doesn't
 deadlock with addr2line

---
 src/symbols/symbols_with_addr2line.cpp | 46 +++++++++++++++-----------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 3e64518..52d2d31 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdint>
 #include <cstdio>
@@ -301,26 +302,31 @@ namespace addr2line {
                     if(entries_vec.empty()) {
                         continue;
                     }
-                    std::string address_input;
-                    for(const auto& pair : entries_vec) {
-                        address_input += microfmt::format(
-                            "{:h}{}",
-                            pair.first.get().object_address,
-                        #if !IS_WINDOWS
-                            '\n'
-                        #else
-                            ' '
-                        #endif
-                        );
-                    }
-                    auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
-                    VERIFY(output.size() == entries_vec.size());
-                    for(std::size_t i = 0; i < output.size(); i++) {
-                        // a line that can't be parsed shouldn't affect the other frames of the object
-                        try {
-                            update_trace(output[i], i, entries_vec);
-                        } catch(...) { // NOSONAR
-                            detail::log_and_maybe_propagate_exception(std::current_exception());
+                    // The addresses of a batch have to fit in a pipe: they're all written before any output is read
+                    constexpr std::size_t batch_size = 2048;
+                    for(std::size_t start = 0; start < entries_vec.size(); start += batch_size) {
+                        const std::size_t end = std::min(start + batch_size, entries_vec.size());
+                        std::string address_input;
+                        for(std::size_t i = start; i < end; i++) {
+                            address_input += microfmt::format(
+                                "{:h}{}",
+                                entries_vec[i].first.get().object_address,
+                            #if !IS_WINDOWS
+                                '\n'
+                            #else
+                                ' '
+                            #endif
+                            );
+                        }
+                        auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
+                        VERIFY(output.size() == end - start);
+                        for(std::size_t i = 0; i < output.size(); i++) {
+                            // a line that can't be parsed shouldn't affect the other frames of the object
+                            try {
+                                update_trace(output[i], start + i, entries_vec);
+                            } catch(...) { // NOSONAR
+                                detail::log_and_maybe_propagate_exception(std::current_exception());
+                            }
                         }
                     }
                 } catch(...) { // NOSONAR
-- 
2.43.0


From 51fd93b3e5b3ea3f0454718f3ac77042bf159e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 22/30] fix: null strings and a null trace given to the C
 interface are treated as empty

---
 src/ctrace.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..2dc28fa 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -116,8 +116,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -149,7 +149,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -334,7 +334,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
-- 
2.43.0


From 369933ad826a90802bbcafa10e9ed576d73a6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 23/30] fix: assigning a traced exception to itself read its
 destroyed trace

---
 src/exceptions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..9a585d7 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -32,6 +32,9 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
@@ -42,6 +45,9 @@ CPPTRACE_BEGIN_NAMESPACE
             return *this;
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
-- 
2.43.0


From b67f452318ea636aead809cf0bddee70fc300f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 24/30] fix: the color parameter overrides a formatter's color
 mode

---
 src/formatting.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..efa637b 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,15 +207,11 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
-            if(
-                (options.color == color_mode::automatic || options.color == color_mode::always) &&
-                (!color_override || color_override.unwrap() != false) &&
-                stream_is_tty(stream)
-            ) {
-                do_color = true;
+            if(color_override) {
+                return color_override.unwrap();
             }
-            return do_color;
+            return options.color == color_mode::always
+                || (options.color == color_mode::automatic && stream_is_tty(stream));
         }
 
         size_t get_trace_start(const stacktrace& trace) const {
-- 
2.43.0


From fffc0694e2e007fa060dfd38c659b320bc55debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 25/30] fix: assigning a formatter to itself used its deleted
 settings

---
 src/formatting.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index efa637b..2543a29 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -387,6 +387,9 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
+        if(this == &other) {
+            return *this;
+        }
         if(pimpl) {
             delete pimpl;
         }
@@ -394,10 +397,9 @@ CPPTRACE_BEGIN_NAMESPACE
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
-            delete pimpl;
-        }
-        pimpl = new impl(*other.pimpl);
+        impl* copy = new impl(*other.pimpl);
+        delete pimpl;
+        pimpl = copy;
         return *this;
     }
 
-- 
2.43.0


From fb1c5b97faf3f068c2577dbdcb698a0c6c016afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 26/30] fix: no blank line after the last shown frame when the
 frames behind it are hidden

---
 src/formatting.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 2543a29..7e42c61 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -262,6 +262,7 @@ CPPTRACE_BEGIN_NAMESPACE
             }
             const auto frame_number_width = detail::n_digits(static_cast<int>(frames.size()) - 1);
             std::size_t counter = 0;
+            bool first = true;
             for(size_t i = get_trace_start(trace); i < frames.size(); ++i) {
                 detail::optional<stacktrace_frame> transformed_frame;
                 if(options.transform) {
@@ -274,6 +275,10 @@ CPPTRACE_BEGIN_NAMESPACE
                     continue;
                 }
 
+                if(!first) {
+                    stream << '\n';
+                }
+                first = false;
                 size_t filename_indent = write_frame_number(stream, frame_number_width, counter);
                 if(filter_out_frame) {
                     microfmt::print(stream, "(filtered)");
@@ -293,9 +298,6 @@ CPPTRACE_BEGIN_NAMESPACE
                         }
                     }
                 }
-                if(i + 1 != frames.size()) {
-                    stream << '\n';
-                }
                 counter++;
             }
         }
-- 
2.43.0


From 97a100e429eee6334af9a10d1339b7dfc8cb6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 27/30] fix: no snippet, rather than reading outside the lines,
 for a line the file does not have; no overflow for large contexts

---
 src/snippets/snippet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..2c1f0af 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -52,7 +52,7 @@ namespace detail {
 
         // takes a 1-index line
         std::string get_line(std::size_t line) const {
-            if(!loaded_contents || line > line_table.size()) {
+            if(!loaded_contents || line >= line_table.size()) {
                 return "";
             } else {
                 return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
@@ -115,9 +115,13 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        const auto last_line = manager.num_lines() - 1; // the line table's first entry is a placeholder
+        if(target_line < 1 || target_line > last_line) {
+            return nullopt;
+        }
+        auto begin = target_line <= context_size ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = target_line + std::min(context_size, last_line - target_line);
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 9d0ec61266c796a1fed1c737d289f92f4fe830f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 28/30] fix: the snippet's caret stays below the column for
 line numbers of six digits and more

---
 src/snippets/snippet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 2c1f0af..75eff64 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -159,9 +159,11 @@ namespace detail {
         return snippet;
     }
 
-    std::string write_carrot(std::uint32_t column, bool color) {
+    std::string write_carrot(std::size_t line, std::uint32_t column, bool color) {
         std::string snippet;
-        snippet += microfmt::format("\n{>{}}", margin_width + 2 + column - 1, "");
+        // the margin of a target line grows when its number is too wide, see write_line_number
+        auto margin = std::max(margin_width, std::to_string(line).size() + 3);
+        snippet += microfmt::format("\n{>{}}", margin + 2 + column - 1, "");
         if(color) {
             snippet += YELLOW;
         }
@@ -183,7 +185,7 @@ namespace detail {
         snippet += write_line_number(line, target_line, color);
         snippet += context.lines[line - context.original_begin];
         if(line == target_line && column.has_value()) {
-            snippet += write_carrot(column.value(), color);
+            snippet += write_carrot(line, column.value(), color);
         }
         return snippet;
     }
-- 
2.43.0


From 54e6e35723598d2d388917eacc7add3bb7d1dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 29/30] fix: pruning skipped one character too many after an
 escape in a quoted string, reading outside the symbol

---
 src/prune_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index fc54cf0..aec4903 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -246,7 +246,7 @@ namespace detail {
                         if(cursor + 1 == source.end()) {
                             return parse_error{};
                         }
-                        cursor += 2;
+                        cursor++; // the escaped character is skipped below
                     }
                     cursor++;
                 }
-- 
2.43.0


From c2bf726e46ddddb35df32bdba5716840ccccb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 30/30] fix: pruning took the return type for the name of a
 function that returns a function pointer, when the pointee type ends in a
 pointer, reference, qualifier or template arguments

---
 src/prune_symbol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index aec4903..98f1502 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -890,6 +890,10 @@ namespace detail {
                 if(!token) {
                     break;
                 }
+                if(lookahead_is_function_pointer()) {
+                    // not a parameter list, the name is inside: e.g. `int* (*foo())(int)`
+                    break;
+                }
                 TRY_PARSE(accept_balanced_punctuation(), {did_consume = true; continue;});
                 TRY_PARSE(accept_ignored_identifier(), {did_consume = true; continue;});
                 TRY_PARSE(accept_pointer_ref(false), {did_consume = true; continue;});
-- 
2.43.0

