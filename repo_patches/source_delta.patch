From 1c8f3a4bafb9b04a0be39c1a9a65f1a922e654d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 01/28] fix: return the tensor from npzfilereader::read<T,
 TENSOR>

The two-parameter overload fell off the end of a non-void function.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..d49019f 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -647,7 +647,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From f6f639bdb9ccb7a23d282e006f6fd0554c4b0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 02/28] fix: reject unknown dtype strings instead of reading
 them as INT8

from_dtype used map::operator[], which silently inserted (INT8, NATIVE) for
any unsupported descriptor (and mutated the shared table while doing so).
---
 src/dtype.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..ea030a1 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -61,7 +61,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto entry = DTYPE_MAP.find(dtype);
+  if (entry == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return entry->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From 75b03bd1c6c97ec4d5852a52b4c52696a088f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 03/28] fix: byte-swap complex numbers per component

Reversing all 8 (16) bytes also swapped the real and imaginary parts, so
big-endian complex arrays were not the ones NumPy reads and writes.
---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index ea030a1..ad7c626 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -421,14 +421,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -444,14 +444,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -465,14 +465,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -481,6 +473,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -496,14 +496,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -512,6 +504,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From 0a917e600ba326efc2970785db351915ce2c53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 04/28] fix: keep embedded NULs when reading unicode strings

Only trailing NULs are padding; all NULs were dropped. Also replace, rather
than append to, the previous contents of the destination strings.
---
 src/dtype.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index ad7c626..40e36b7 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -560,6 +560,7 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
                    size_t num_elements, const header_info &info) {
   std::wstring *ptr = data_ptr;
   for (size_t i = 0; i < num_elements; ++i, ++ptr) {
+    ptr->clear();
     std::int_least32_t value = 0;
     char *bytes = reinterpret_cast<char *>(&value);
     for (size_t j = 0; j < info.max_element_length; ++j) {
@@ -575,12 +576,14 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
 
       ptr->push_back(static_cast<wchar_t>(value));
     }
+
+    // only trailing NULs are padding
+    while (!ptr->empty() && ptr->back() == 0) {
+      ptr->pop_back();
+    }
   }
 }
 
-- 
2.43.0


From 50e84b1116a74b62fd118fd3b37173624698d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 05/28] fix: write the full header length of long NPY headers

Only the low byte of the length was stored, so any header over 255 bytes
(many dimensions) produced an unreadable file. Headers that do not fit the
2-byte field of version 1.0 use version 2.0.
---
 include/npy/npy.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index d49019f..7c556dc 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -201,19 +201,32 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   buff << "), }";
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
+  // version 2.0 has a 4-byte (instead of 2-byte) header length field
+  bool version2 = dict_length + 64 > 0xFFFF;
+  size_t static_length = STATIC_HEADER_LENGTH + (version2 ? 2 : 0);
   std::string end = "\n";
-  auto header_length = dict_length + STATIC_HEADER_LENGTH;
+  auto header_length = dict_length + static_length;
   if (header_length % 64 != 0) {
     header_length = ((header_length / 64) + 1) * 64;
-    dict_length = header_length - STATIC_HEADER_LENGTH;
+    dict_length = header_length - static_length;
     end = std::string(dict_length - dictionary.length(), ' ');
     end.back() = '\n';
   }
 
-  const char header[STATIC_HEADER_LENGTH] = {
-      static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
-  output.write(header, STATIC_HEADER_LENGTH);
+  const char header[STATIC_HEADER_LENGTH + 2] = {
+      static_cast<char>(0x93),
+      'N',
+      'U',
+      'M',
+      'P',
+      'Y',
+      static_cast<char>(version2 ? 0x02 : 0x01),
+      0x00,
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>((dict_length >> 8) & 0xFF),
+      static_cast<char>((dict_length >> 16) & 0xFF),
+      static_cast<char>((dict_length >> 24) & 0xFF)};
+  output.write(header, static_length);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
   output.write(reinterpret_cast<const CHAR *>(end.data()), end.length());
-- 
2.43.0


From a262841c37f4063eefa74ce4b4ed8111fdba1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 06/28] fix: do not share a static buffer between header
 parsers

Parsing two NPY headers at the same time on different threads corrupted both.
The fixed size of the buffer also cut off tokens longer than 64K.
---
 src/npy.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..ff52bd1 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], expected.length());
   assert(actual == expected);
 }
 
@@ -30,15 +27,12 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
+  std::string token;
+  while (input.peek() != delim && input.good()) {
+    token.push_back(static_cast<char>(input.get()));
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
-
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 455d3421bc94858a72fc96850afea4bb63a2fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 07/28] fix: reject malformed NPY header dictionaries instead
 of misreading them

---
 src/npy.cpp | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index ff52bd1..4cfb3bb 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,15 +8,15 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
-  input.get(actual);
-  assert(actual == expected);
+  if (input.get() != expected) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
-  std::string actual(expected.length(), '\0');
-  input.read(&actual[0], expected.length());
-  assert(actual == expected);
+  for (char c : expected) {
+    read(input, c);
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -62,12 +62,24 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  skip_whitespace(tuple);
+  while (std::isdigit(tuple.peek())) {
+    if (!(tuple >> size)) {
+      throw std::runtime_error("Invalid shape in NPY header");
+    }
+
     shape.push_back(size);
-    if (tuple.peek() == ',') {
-      read(tuple, ',');
-      skip_whitespace(tuple);
+    skip_whitespace(tuple);
+    if (tuple.peek() != ',') {
+      break;
     }
+
+    read(tuple, ',');
+    skip_whitespace(tuple);
+  }
+
+  if (tuple.peek() != std::istream::traits_type::eof()) {
+    throw std::runtime_error("Invalid shape in NPY header");
   }
 
   return shape;
@@ -77,6 +89,7 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false, has_fortran_order = false, has_shape = false;
   read(input, '{');
   while (input.peek() != '}') {
     skip_whitespace(input);
@@ -86,10 +99,18 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.size() > 1 && dtype_code[1] == 'U') {
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
+        if (dtype_code.size() == 2 ||
+            !std::all_of(dtype_code.begin() + 2, dtype_code.end(),
+                         [](unsigned char c) { return std::isdigit(c); }) ||
+            std::string("<>=|").find(dtype_code[0]) == std::string::npos) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
+
         max_element_length = std::stoi(dtype_code.substr(2));
       } else {
         std::tie(this->dtype, endianness) = from_dtype(dtype_code);
@@ -97,8 +118,10 @@ header_info::header_info(const std::string &dictionary) {
       }
 
     } else if (key == "fortran_order") {
+      has_fortran_order = true;
       fortran_order = read_bool(input);
     } else if (key == "shape") {
+      has_shape = true;
       shape = read_shape(input);
     } else {
       throw std::runtime_error("Unsupported key: " + key);
@@ -109,6 +132,9 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Missing key in NPY header dictionary");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
@@ -117,6 +143,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From 0ebf2ea625fbdade16095e174cad7887c1784bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 08/28] fix: reject NPY files with a bad magic string or
 version

---
 include/npy/npy.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 7c556dc..c500c89 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdint>
+#include <cstring>
 #include <filesystem>
 #include <fstream>
 #include <map>
@@ -310,20 +311,20 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (!input || std::memcmp(header, "\x93NUMPY", 6) != 0) {
+    throw std::runtime_error("Not a valid NPY file");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
     std::uint8_t extra[2];
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
-- 
2.43.0


From 362482266271398240255a45cf11854a0c7ed38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 09/28] fix: reject truncated NPY data instead of returning
 garbage

---
 include/npy/npy.h |  4 ++++
 src/dtype.cpp     | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index c500c89..38cf60e 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -329,6 +329,10 @@ header_info read_npy_header(std::basic_istream<CHAR> &input) {
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (!input) {
+    throw std::runtime_error("Unexpected end of NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/dtype.cpp b/src/dtype.cpp
index 40e36b7..115428b 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -41,6 +41,12 @@ std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
     {"<c16", {npy::data_type_t::COMPLEX128, npy::endian_t::LITTLE}},
     {">c16", {npy::data_type_t::COMPLEX128, npy::endian_t::BIG}},
     {"|b1", {npy::data_type_t::BOOL, npy::endian_t::NATIVE}}};
+
+void check_complete(const std::istream &input) {
+  if (!input) {
+    throw std::runtime_error("Unexpected end of NPY data");
+  }
+}
 } // namespace
 
 namespace npy {
@@ -90,6 +96,8 @@ void read_values<>(std::basic_istream<char> &input, uint8_t *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  check_complete(input);
 }
 
 template <>
@@ -103,6 +111,8 @@ void read_values<>(std::basic_istream<char> &input, int8_t *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  check_complete(input);
 }
 
 template <>
@@ -116,6 +126,8 @@ void read_values<>(std::basic_istream<char> &input, boolean *data_ptr,
                    size_t num_elements, const header_info &) {
   char *start = reinterpret_cast<char *>(data_ptr);
   input.read(start, num_elements);
+
+  check_complete(input);
 }
 
 template <>
@@ -147,6 +159,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least16_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -178,6 +192,8 @@ void read_values<>(std::basic_istream<char> &input, int_least16_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -213,6 +229,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least32_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -248,6 +266,8 @@ void read_values<>(std::basic_istream<char> &input, int_least32_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -282,6 +302,8 @@ void read_values<>(std::basic_istream<char> &input, float *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -325,6 +347,8 @@ void read_values<>(std::basic_istream<char> &input, uint_least64_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -368,6 +392,8 @@ void read_values<>(std::basic_istream<char> &input, int_least64_t *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -410,6 +436,8 @@ void read_values<>(std::basic_istream<char> &input, double *data_ptr,
       ptr[0] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -454,6 +482,8 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[4] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -514,6 +544,8 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[8] = GETC(input);
     }
   }
+
+  check_complete(input);
 }
 
 template <>
@@ -580,6 +612,8 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
       ptr->push_back(static_cast<wchar_t>(value));
     }
 
+    check_complete(input);
+
     // only trailing NULs are padding
     while (!ptr->empty() && ptr->back() == 0) {
       ptr->pop_back();
-- 
2.43.0


From 89809357fb7929d08e38b22084e01de0558d8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 10/28] fix: reject shapes whose element count overflows

---
 include/npy/npy.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 38cf60e..c7bca3a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -24,6 +24,7 @@
 #include <cstring>
 #include <filesystem>
 #include <fstream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -1013,8 +1014,16 @@ private:
 
   /// @brief Gets the size of a tensor given its shape
   static size_t get_size(const std::vector<size_t> &shape) {
+    if (std::find(shape.begin(), shape.end(), 0) != shape.end()) {
+      return 0;
+    }
+
     size_t size = 1;
     for (auto &dim : shape) {
+      if (size > std::numeric_limits<size_t>::max() / dim) {
+        throw std::length_error("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From ba2539a219874ab902d57ec7527510682d281ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 11/28] fix: check the rank of unsigned multi-indices

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index c7bca3a..ce0a8e4 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -995,6 +995,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From 0e9901f776c2c5394851466acdd5469f80c9a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 12/28] fix: construct boolean by truth value, not by sign

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index ce0a8e4..3542625 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -109,7 +109,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From e5e4dabd8865bed92233d6ffe8dbb37f72525c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 13/28] fix: make NPY headers independent of the global locale

---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 3542625..eccf2ef 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -25,6 +25,7 @@
 #include <filesystem>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -186,6 +187,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index 4cfb3bb..e8d1b02 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -57,6 +57,7 @@ bool read_bool(std::istream &input) {
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
+  tuple.imbue(std::locale::classic());
   read(input, ')');
 
   std::vector<size_t> shape;
-- 
2.43.0


From 9aff05adf5455591ce9b4c155f7879129fe73cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 14/28] fix: report failed writes when saving to a path or
 closing an archive

---
 include/npy/npy.h |  4 ++++
 src/npz.cpp       | 11 +++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index eccf2ef..b3295eb 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -293,6 +293,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (!output) {
+    throw std::runtime_error("Error writing to " + path);
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..cd1184d 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -483,7 +483,11 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
 
 npzfilewriter::~npzfilewriter() {
   if (!m_closed) {
-    close();
+    try {
+      close();
+    } catch (...) {
+      // errors can only be reported by an explicit call to close()
+    }
   }
 }
 
@@ -501,9 +505,12 @@ void npzfilewriter::write_file(const std::string &filename,
 
 void npzfilewriter::close() {
   if (!m_closed) {
-    ::close(m_output, m_entries);
     m_closed = true;
+    ::close(m_output, m_entries);
     m_output.close();
+    if (!m_output) {
+      throw std::runtime_error("Error writing NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From d3213ed13d7d1940012c4f4275161cf60d3b0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 15/28] fix: keep an archive reader usable after a failed read

---
 src/npz.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index cd1184d..f2f2f18 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,7 +84,7 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual{};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
@@ -325,6 +325,10 @@ void read_entries(std::istream &input,
 
   for (size_t i = 0; i < dir.num_entries; ++i) {
     file_entry entry = read_central_directory_header(input);
+    if (!input) {
+      throw std::runtime_error("Unexpected end of NPZ central directory");
+    }
+
     entries[entry.filename] = entry;
     keys.push_back(entry.filename);
   }
@@ -391,6 +395,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // a previous read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From eafd60b59bdbedd96468461f00faa7b0d1031424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 16/28] fix: include the ZIP64 tag and size in the extra field
 length

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index f2f2f18..56b30ef 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -111,6 +111,10 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
+  if (length > 0) {
+    length += 4; // tag and size
+  }
+
   return length;
 }
 
-- 
2.43.0


From c9050be15ec7f3668c323ecfb9a5feb77cb38b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 17/28] fix: skip extra fields and comments of archive entries

---
 src/npz.cpp | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 56b30ef..68eaf70 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -141,13 +141,7 @@ void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
 }
 
 void read_zip64_extra(std::istream &stream, npy::file_entry &header,
-                      bool include_offset) {
-  std::uint16_t tag = read16(stream);
-  if (tag != ZIP64_TAG) {
-    throw std::runtime_error("Invalid tag (expected ZIP64)");
-  }
-
-  std::uint16_t actual_size = read16(stream);
+                      std::uint16_t actual_size, bool include_offset) {
   std::uint16_t expected_size = 0;
 
   if (header.uncompressed_size == ZIP64_PLACEHOLDER) {
@@ -169,10 +163,31 @@ void read_zip64_extra(std::istream &stream, npy::file_entry &header,
     throw std::runtime_error("ZIP64 extra info missing");
   }
 
-  if (actual_size > expected_size) {
-    // this can be the result of force_zip64 being set in Python's zipfile
-    stream.seekg(actual_size - expected_size, std::ios::cur);
+  // there can be more than expected as the result of force_zip64 being set in
+  // Python's zipfile
+  stream.ignore(actual_size - expected_size);
+}
+
+void read_extra(std::istream &stream, npy::file_entry &header,
+                std::uint16_t extra_field_length, bool include_offset) {
+  while (extra_field_length >= 4) {
+    std::uint16_t tag = read16(stream);
+    std::uint16_t size = read16(stream);
+    extra_field_length -= 4;
+    if (size > extra_field_length) {
+      throw std::runtime_error("Invalid extra field");
+    }
+
+    if (tag == ZIP64_TAG) {
+      read_zip64_extra(stream, header, size, include_offset);
+    } else {
+      stream.ignore(size);
+    }
+
+    extra_field_length -= size;
   }
+
+  stream.ignore(extra_field_length);
 }
 
 void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
@@ -226,9 +241,7 @@ npy::file_entry read_local_header(std::istream &stream) {
   stream.read(buffer.data(), filename_length);
   entry.filename = std::string(buffer.begin(), buffer.end());
 
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, false);
-  }
+  read_extra(stream, entry, extra_field_length, false);
 
   return entry;
 }
@@ -268,7 +281,7 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   npy::file_entry entry;
   std::uint16_t filename_length = read_shared_header(stream, entry);
   std::uint16_t extra_field_length = read16(stream);
-  read16(stream); // file comment length
+  std::uint16_t file_comment_length = read16(stream);
   read16(stream); // disk number start
   read16(stream); // internal file attributes
   read32(stream); // external file attributes
@@ -278,9 +291,8 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   stream.read(buffer.data(), filename_length);
   entry.filename = std::string(buffer.begin(), buffer.end());
 
-  if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, true);
-  }
+  read_extra(stream, entry, extra_field_length, true);
+  stream.ignore(file_comment_length);
 
   return entry;
 }
-- 
2.43.0


From c98a4952d9dfe9ab3c248cf89a1a151035e36b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 18/28] fix: do not truncate sizes and offsets of large
 archives to 32 bits

---
 src/npz.cpp |  8 ++++----
 src/zip.cpp | 11 +++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 68eaf70..9a2f131 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -367,8 +367,8 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -376,7 +376,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -386,7 +386,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6ffe9fa 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,15 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  size_t remaining = bytes.size();
+  while (remaining > 0) {
+    uInt len = static_cast<uInt>(remaining < CHUNK ? remaining : CHUNK);
+    crc = ::crc32(crc, buf, len);
+    buf += len;
+    remaining -= len;
+  }
+
+  return crc;
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From 7740d9839d2874f0be6235e1eaf08239e2698d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 19/28] fix: reject archive entry names that are too long for
 the ZIP format

---
 src/npz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 9a2f131..d6785d0 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -22,6 +22,8 @@ const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 
+const size_t MAX_FILENAME_LENGTH = 0xFFFF;
+
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
@@ -367,6 +369,10 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  if (filename.length() > MAX_FILENAME_LENGTH) {
+    throw std::invalid_argument("filename is too long");
+  }
+
   std::uint64_t uncompressed_size = bytes.size();
   std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
-- 
2.43.0


From a98bcb71a41ef0b46b49d43d52a1657f68e945cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 20/28] fix: write and read ZIP64 end of central directory
 records

---
 src/npz.cpp | 89 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index d6785d0..9f545e9 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -15,9 +15,13 @@ const std::array<std::uint8_t, 4> LOCAL_HEADER_SIG = {0x50, 0x4B, 0x03, 0x04};
 const std::array<std::uint8_t, 4> CD_HEADER_SIG = {0x50, 0x4B, 0x01, 0x02};
 const std::array<std::uint8_t, 4> CD_END_SIG = {0x50, 0x4B, 0x05, 0x06};
 
+const std::array<std::uint8_t, 4> ZIP64_CD_END_SIG = {0x50, 0x4B, 0x06, 0x06};
+const std::array<std::uint8_t, 4> ZIP64_LOCATOR_SIG = {0x50, 0x4B, 0x06, 0x07};
+
 const std::array<std::uint8_t, 4> EXTERNAL_ATTR = {0x00, 0x00, 0x80, 0x01};
 const std::array<std::uint8_t, 4> TIME = {0x00, 0x00, 0x21, 0x00};
 const int CD_END_SIZE = 22;
+const int ZIP64_LOCATOR_SIZE = 20;
 const std::uint16_t STANDARD_VERSION =
     20; // 2.0 File is encrypted using traditional PKWARE encryption
 const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
@@ -27,6 +31,8 @@ const size_t MAX_FILENAME_LENGTH = 0xFFFF;
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
+const std::uint16_t ZIP64_ENTRIES_PLACEHOLDER = 0xFFFF;
+const std::uint64_t ZIP64_CD_END_SIZE = 44; // excludes signature and size
 
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
@@ -300,26 +306,84 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
 }
 
 struct CentralDirectory {
-  std::uint16_t num_entries;
-  std::uint32_t size;
-  std::uint32_t offset;
+  std::uint64_t num_entries;
+  std::uint64_t size;
+  std::uint64_t offset;
 };
 
+void write_zip64_end_of_central_directory(std::ostream &stream,
+                                          const CentralDirectory &dir) {
+  std::uint64_t end_offset = dir.offset + dir.size;
+  stream.write(reinterpret_cast<const char *>(ZIP64_CD_END_SIG.data()),
+               ZIP64_CD_END_SIG.size());
+  write(stream, ZIP64_CD_END_SIZE);
+  write(stream, ZIP64_VERSION);
+  write(stream, ZIP64_VERSION);
+  std::uint32_t disk_number = 0;
+  write(stream, disk_number);
+  write(stream, disk_number);
+  write(stream, dir.num_entries);
+  write(stream, dir.num_entries);
+  write(stream, dir.size);
+  write(stream, dir.offset);
+
+  stream.write(reinterpret_cast<const char *>(ZIP64_LOCATOR_SIG.data()),
+               ZIP64_LOCATOR_SIG.size());
+  write(stream, disk_number);
+  write(stream, end_offset);
+  std::uint32_t num_disks = 1;
+  write(stream, num_disks);
+}
+
 void write_end_of_central_directory(std::ostream &stream,
                                     const CentralDirectory &dir) {
+  bool many_entries = dir.num_entries >= ZIP64_ENTRIES_PLACEHOLDER;
+  if (many_entries || dir.size > ZIP64_LIMIT || dir.offset > ZIP64_LIMIT) {
+    write_zip64_end_of_central_directory(stream, dir);
+  }
+
+  std::uint16_t num_entries = many_entries
+                                  ? ZIP64_ENTRIES_PLACEHOLDER
+                                  : static_cast<std::uint16_t>(dir.num_entries);
   stream.write(reinterpret_cast<const char *>(CD_END_SIG.data()),
                CD_END_SIG.size());
   uint16_t disk_number = 0;
   write(stream, disk_number);
   write(stream, disk_number);
-  write(stream, dir.num_entries);
-  write(stream, dir.num_entries);
-  write(stream, dir.size);
-  write(stream, dir.offset);
+  write(stream, num_entries);
+  write(stream, num_entries);
+  write32(stream, dir.size);
+  write32(stream, dir.offset);
   std::uint16_t file_comment_length = 0;
   write(stream, file_comment_length);
 }
 
+void read_zip64_end_of_central_directory(std::istream &stream,
+                                         CentralDirectory &dir) {
+  stream.seekg(-CD_END_SIZE - ZIP64_LOCATOR_SIZE, std::ios::end);
+  std::array<std::uint8_t, 4> sig{};
+  stream.read(reinterpret_cast<char *>(sig.data()), sig.size());
+  if (sig != ZIP64_LOCATOR_SIG) {
+    // there is no ZIP64 record: the values are not placeholders
+    return;
+  }
+
+  read32(stream); // disk with the start of the end of central directory
+  std::uint64_t end_offset = read64(stream);
+
+  stream.seekg(end_offset, std::ios::beg);
+  assert_sig(stream, ZIP64_CD_END_SIG, "zip64_end_of_central_directory");
+  read64(stream); // size of this record
+  read16(stream); // version made by
+  read16(stream); // version needed
+  read32(stream); // number of this disk
+  read32(stream); // number of the disk with the start of the central directory
+  dir.num_entries = read64(stream);
+  read64(stream); // num_entries_on_disk
+  dir.size = read64(stream);
+  dir.offset = read64(stream);
+}
+
 CentralDirectory read_end_of_central_directory(std::istream &stream) {
   assert_sig(stream, CD_END_SIG, "end_of_central_directory");
 
@@ -330,6 +394,11 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   read16(stream); // num_entries_on_disk
   result.size = read32(stream);
   result.offset = read32(stream);
+  if (result.num_entries == ZIP64_ENTRIES_PLACEHOLDER ||
+      result.size == ZIP64_PLACEHOLDER || result.offset == ZIP64_PLACEHOLDER) {
+    read_zip64_end_of_central_directory(stream, result);
+  }
+
   return result;
 }
 
@@ -356,13 +425,13 @@ void read_entries(std::istream &input,
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  dir.offset = static_cast<std::uint64_t>(output.tellp());
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
-  dir.num_entries = static_cast<std::uint16_t>(entries.size());
+  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
+  dir.num_entries = entries.size();
   write_end_of_central_directory(output, dir);
 }
 
-- 
2.43.0


From af52c3e1a8747642261e39b6bc5a6fbf84afc291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 21/28] hook: LIBNPY_VERIF_ZIP64_LIMIT lowers the ZIP64
 threshold

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 9f545e9..ec301d2 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -29,7 +29,11 @@ const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 const size_t MAX_FILENAME_LENGTH = 0xFFFF;
 
 const std::uint16_t ZIP64_TAG = 1;
+#ifdef LIBNPY_VERIF_ZIP64_LIMIT // verification hook: lowers the limit
+const std::uint64_t ZIP64_LIMIT = LIBNPY_VERIF_ZIP64_LIMIT;
+#else
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
+#endif
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
 const std::uint16_t ZIP64_ENTRIES_PLACEHOLDER = 0xFFFF;
 const std::uint64_t ZIP64_CD_END_SIZE = 44; // excludes signature and size
-- 
2.43.0


From a3b53965258ba220ca456309f0a382320866d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 22/28] fix: make save<T, TENSOR>(path, tensor) callable

---
 include/npy/npy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b3295eb..98ff407 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -306,9 +306,9 @@ void save(const std::string &path, T &tensor,
 /// @param tensor the tensor
 /// @param endianness the endianness to use in saving the tensor
 template <typename T, template <typename> class TENSOR>
-void save(const std::string &path, T &tensor,
+void save(const std::string &path, const TENSOR<T> &tensor,
           endian_t endianness = npy::endian_t::NATIVE) {
-  save<TENSOR<T>>(path, tensor, endianness);
+  save<const TENSOR<T>>(path, tensor, endianness);
 };
 
 /// @brief Read an NPY header from the provided stream.
-- 
2.43.0


From 90f42472763631b04c16da52d1a3346332ad1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 23/28] fix: let a const tensor be saved by its save(path)
 member

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 98ff407..d80c26b 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -950,7 +950,7 @@ public:
   /// @param path a valid location on disk
   /// @param endianness the endianness to use in writing the tensor
   void save(const std::string &path,
-            endian_t endianness = npy::endian_t::NATIVE) {
+            endian_t endianness = npy::endian_t::NATIVE) const {
     npy::save(path, *this, endianness);
   }
 
-- 
2.43.0


From 5241c8349e2665daddfff5f57901d7916452e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 24/28] fix: reject deflate matches that start before the
 output

---
 src/miniz/miniz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 91c1abe..668a9b0 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -342,6 +342,12 @@ int mz_inflate(mz_streamp pStream, int flush)
     in_bytes = pStream->avail_in;
     out_bytes = TINFL_LZ_DICT_SIZE - pState->m_dict_ofs;
 
+    // Until the dictionary wraps for the first time, matches cannot refer to anything before its start.
+    if (pStream->total_out < TINFL_LZ_DICT_SIZE)
+      decomp_flags |= TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF;
+    else
+      decomp_flags &= ~TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF;
+
     status = tinfl_decompress(&pState->m_decomp, pStream->next_in, &in_bytes, pState->m_dict, pState->m_dict + pState->m_dict_ofs, &out_bytes, decomp_flags);
     pState->m_last_status = status;
 
-- 
2.43.0


From 82d44c979b0cd28d400b6e432ba834767b0edf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 25/28] fix: inflate pending output after the last input was
 consumed

---
 src/zip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6ffe9fa..0536510 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -125,8 +125,8 @@ std::string npy_inflate(std::string &&bytes) {
       throw std::runtime_error("Error reading from input stream");
     }
 
-    if (strm.avail_in == 0) {
-      break;
+    if (strm.avail_in == 0 && ret == Z_BUF_ERROR) {
+      break; /* neither input nor pending output is left */
     }
 
     strm.next_in = in.data();
-- 
2.43.0


From 8562e1e95c27798bece341b6668e8203f273408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 26/28] fix: reject invalid length and distance symbols when
 inflating

---
 src/miniz/miniz.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 668a9b0..abe2368 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -689,10 +689,18 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         }
         if ((counter &= 511) == 256) break;
 
+        if (counter > 285)
+        {
+          TINFL_CR_RETURN_FOREVER(54, TINFL_STATUS_FAILED);
+        }
         num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
 
         TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
+        if (dist > 29)
+        {
+          TINFL_CR_RETURN_FOREVER(55, TINFL_STATUS_FAILED);
+        }
         num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
-- 
2.43.0


From f72caa8ead0c82323b8ba77a82e796eca5916c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 27/28] fix: reject bit patterns without a symbol when
 inflating

---
 src/miniz/miniz.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index abe2368..d15ba6b 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -597,10 +597,16 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
         used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
         for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
-        if ((65536 != total) && (used_syms > 1))
+        // A code may only be incomplete if it has no symbols, or a single one of one bit. The code length code may not be.
+        if ((65536 != total) && ((used_syms != total_syms[1]) || (used_syms > 1) || (r->m_type == 2)))
         {
           TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
         }
+        if (65536 != total)
+        {
+          // The bit patterns without a symbol decode to an invalid one.
+          for (i = 0; i < TINFL_FAST_LOOKUP_SIZE; ++i) pTable->m_look_up[i] = (mz_int16)((1 << 9) | (r->m_type ? 31 : 287));
+        }
         for (tree_next = -1, sym_index = 0; sym_index < r->m_table_sizes[r->m_type]; ++sym_index)
         {
           mz_uint rev_code = 0, l, cur_code, code_size = pTable->m_code_size[sym_index]; if (!code_size) continue;
-- 
2.43.0


From 33b3c2937437bca5861893a5fa219d5184ae77fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 28/28] fix: report a failed position query while writing an
 archive

---
 src/npz.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index ec301d2..d606cb4 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -427,14 +427,23 @@ void read_entries(std::istream &input,
   std::sort(keys.begin(), keys.end());
 }
 
+std::uint64_t position(std::ostream &output) {
+  std::ostream::pos_type offset = output.tellp();
+  if (offset == std::ostream::pos_type(-1)) {
+    throw std::runtime_error("Error writing NPZ file");
+  }
+
+  return static_cast<std::uint64_t>(offset);
+}
+
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint64_t>(output.tellp());
+  dir.offset = position(output);
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint64_t>(output.tellp()) - dir.offset;
+  dir.size = position(output) - dir.offset;
   dir.num_entries = entries.size();
   write_end_of_central_directory(output, dir);
 }
@@ -465,7 +474,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint64_t>(output.tellp())};
+                      position(output)};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
-- 
2.43.0

