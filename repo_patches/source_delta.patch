From f7fbbda61a6cdd40f92f420a183e78dc1f571ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 01/25] fix: do not read packed bytes from non-contiguous
 containers

json::parse(std::deque<char>) loaded 16 or 32 bytes through a pointer to one
element, reading past the end of the deque's blocks.
---
 include/common/utils.hpp       | 6 ++++++
 include/parser/parser.hpp      | 1 +
 include/parser/parser_impl.hpp | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..82e36d1 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -5,6 +5,7 @@
 #include <charconv>
 #include <cstddef>
 #include <iomanip>
+#include <iterator>
 #include <limits>
 #include <sstream>
 #include <string>
@@ -137,6 +138,11 @@ struct has_reserve<T, std::void_t<decltype(std::declval<T&>().reserve(std::declv
 {
 };
 
+template <typename T, typename = void>
+constexpr bool is_contiguous = false;
+template <typename T>
+constexpr bool is_contiguous<T, std::void_t<decltype(std::data(std::declval<const T&>()))>> = true;
+
 template <typename T>
 constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is_same_v<std::decay_t<T>, array>
     || std::is_same_v<std::decay_t<T>, object>;
diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 858f971..aa5968a 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -8,6 +8,7 @@
 #include <string>
 
 #include "../common/types.hpp"
+#include "../common/utils.hpp"
 #include "packed_bytes.hpp"
 
 namespace json
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..1869a8c 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -315,7 +315,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && _utils::is_contiguous<parsing_t> && accel_traits::available) {
             if (!skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
-- 
2.43.0


From 7e7cd256cd6645471510ef3c41e10fecb92d1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/25] fix: reject an unpaired high surrogate followed by
 plain characters

The accelerated skip jumped over the characters between the two halves, so
"\\ud800aaa\\udc00" was accepted or refused depending on the length of the
remaining text.
---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 1869a8c..17320dd 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,7 +316,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && _utils::is_contiguous<parsing_t> && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // an unpaired high surrogate must be followed by another escape, leave the check to the loop below
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From a724e46a28908d582454cae301ac6df910c6741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 03/25] fix: reject a stray slash or a malformed comment after
 the root value

"[1]/garbage" was accepted in both modes and "[1]/* unterminated" with
comments enabled, because a failed comment looked like the end of the text.
---
 include/parser/parser_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 17320dd..199b99b 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -38,7 +38,7 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
     }
 
     // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -526,7 +526,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         return false;
     }
 
+    const auto comment_beg = _cur;
+
     if (++_cur == _end) {
+        _cur = comment_beg;
         return false;
     }
 
@@ -545,6 +548,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         t = comment_type::block;
         break;
     default:
+        _cur = comment_beg;
         return false;
     }
 
@@ -567,7 +571,13 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
     }
 
     // _cur == _end
-    return t == comment_type::line;
+    if (t == comment_type::line) {
+        return true;
+    }
+
+    // unterminated block comment
+    _cur = comment_beg;
+    return false;
 }
 
 template <bool accept_jsonc, typename parsing_t, typename accel_traits>
-- 
2.43.0


From df1c0a1c7b8a0e04a6c2fae118acbe69c5ab8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 04/25] fix: report unreadable streams instead of parsing what
 happened to be read

A stream whose size cannot be determined threw std::length_error, opening a
directory too, and a read error or a short read left zero bytes in the buffer,
so the part that was read could pass for a whole document.
---
 include/parser/parser_impl.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 199b99b..fb90128 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -621,12 +621,20 @@ inline std::optional<value> parse(const char* content)
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
     istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    const std::streamoff file_size = istream.tellg();
 
     istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
+    // peek() notices unreadable sources (e.g. a directory, whose reported size is meaningless) before the size is trusted
+    if (file_size < 0 || istream.peek() == std::istream::traits_type::eof()) {
+        return std::nullopt;
+    }
 
+    std::string str(static_cast<size_t>(file_size), '\0');
     istream.read(str.data(), file_size);
+    if (istream.bad()) {
+        return std::nullopt;
+    }
+    str.resize(static_cast<size_t>(istream.gcount()));
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 21d53cde0580d2f506c8574d00d5a53266ba637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 05/25] fix: reject an unpaired high surrogate followed by
 another unicode escape

"\ud83d\u0061\ude00" was accepted: the pending high surrogate survived an
ordinary \uXXXX escape and was joined with a later low surrogate.
---
 include/parser/parser_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index fb90128..b611141 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -438,6 +438,9 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 2b1440badcc7f8725674b72a8de276685afd173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 06/25] fix: leave a moved-from value null instead of a
 container without data

---
 include/common/value_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..ce3fe79 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,11 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(std::exchange(rhs._type, value_type::null))
+    , _raw_data(std::exchange(rhs._raw_data, var_t {}))
+{
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
-- 
2.43.0


From 7f1289303de3e35c6496bc55224749c119651607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 07/25] fix: move assignment leaves its source null and accepts
 a part of the target

---
 include/common/value_impl.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index ce3fe79..0d949c3 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -855,7 +855,15 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    // rhs may be a part of this value, take its content before the old content is destroyed
+    value temp = std::move(rhs);
+    std::swap(_type, temp._type);
+    std::swap(_raw_data, temp._raw_data);
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From 3ae77d042a7978e799f440d711e52e344b41965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 08/25] fix: copy assignment copies before it changes the
 target

---
 include/common/value_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0d949c3..7003368 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -849,8 +849,10 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
+    // copy first: rhs may contain this value, and a failed copy must leave this value as it was
+    var_t data = deep_copy(rhs._raw_data);
     _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
+    _raw_data = std::move(data);
 
     return *this;
 }
-- 
2.43.0


From ba9a5b699d95f2e90d0dcbcf30b16f946e8bb2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 09/25] fix: keep an empty value as it was when it cannot
 become a container

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 7003368..8e8ea90 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -644,8 +644,8 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty()) {
-        _type = value_type::array;
         _raw_data = std::make_unique<array>();
+        _type = value_type::array;
     }
 
     if (is_array()) {
@@ -658,8 +658,8 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     if (is_object()) {
@@ -1001,8 +1001,8 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[key];
@@ -1011,8 +1011,8 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From f50ff0155febb67afd6105d71400fdb7b57e93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 10/25] fix: merge an object with a part of itself

---
 include/common/object_impl.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..d978ab8 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,18 +6,19 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
+inline void merge_object_move(object::raw_object& dst, object& src)
 {
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
+    // src may be a part of dst, so it must not be read while elements of dst are replaced
+    object temp = std::move(src);
+    for (auto& [key, val] : temp) {
+        dst.insert_or_assign(key, std::move(val));
     }
 }
 
-inline void merge_object_move(object::raw_object& dst, object& src)
+inline void merge_object(object::raw_object& dst, const object& src)
 {
-    for (auto& [key, val] : src) {
-        dst.insert_or_assign(key, std::move(val));
-    }
+    object temp = src;
+    merge_object_move(dst, temp);
 }
 } // namespace _object_impl_detail
 
-- 
2.43.0


From af6f35cc8939d0e2bb4e12b38da63bfbbac28c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 11/25] fix: keep the container of an empty array or object
 when it is accessed again

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 8e8ea90..17ecd8d 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -643,7 +643,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (!is_array() && empty()) {
         _raw_data = std::make_unique<array>();
         _type = value_type::array;
     }
@@ -657,7 +657,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
@@ -1000,7 +1000,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
@@ -1010,7 +1010,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
-- 
2.43.0


From 5b74dec63fdf63189ccbfce9bd0571e3c0557485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 12/25] fix: assign an array or object from a part of itself,
 or not at all

---
 include/common/array_impl.hpp  | 20 ++++++++++++++++++--
 include/common/object_impl.hpp | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..bcd32ce 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,24 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    // copy first: rhs may be a part of this array, and a failed copy must leave this array as it was
+    array temp = rhs;
+    _array_data.swap(temp._array_data);
+
+    return *this;
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    // rhs may be a part of this array, take its content before the old content is destroyed
+    array temp = std::move(rhs);
+    _array_data.swap(temp._array_data);
+
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index d978ab8..de37452 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -26,8 +26,24 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    // copy first: rhs may be a part of this object, and a failed copy must leave this object as it was
+    object temp = rhs;
+    _object_data.swap(temp._object_data);
+
+    return *this;
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    // rhs may be a part of this object, take its content before the old content is destroyed
+    object temp = std::move(rhs);
+    _object_data.swap(temp._object_data);
+
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
-- 
2.43.0


From bb43b14d66fc56b7d8bb377880b41fc396c49b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 13/25] fix: convert null to an empty optional in as()

---
 include/common/value_impl.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 17ecd8d..1064a84 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -702,6 +702,13 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        // std::optional would convert the null value itself, so it must not get that far
+        if (is_null()) {
+            return value_t {};
+        }
+        return static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -727,6 +734,13 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        // std::optional would convert the null value itself, so it must not get that far
+        if (is_null()) {
+            return value_t {};
+        }
+        return static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From ac0f5093e8b3c2fc5ad265d766a8f08dcbd58f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 14/25] fix: do not terminate when a type check throws

---
 include/common/value.hpp      | 6 +++---
 include/common/value_impl.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..92cc0da 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -327,7 +327,7 @@ public:
     bool is_object() const noexcept;
 
     template <typename value_t>
-    bool is() const noexcept;
+    bool is() const;
 
     template <typename value_t>
     bool all() const;
@@ -391,10 +391,10 @@ public:
 
 private:
     template <typename tuple_t, size_t... Is>
-    bool is_tuple_helper(std::index_sequence<Is...>) const noexcept;
+    bool is_tuple_helper(std::index_sequence<Is...>) const;
 
     template <typename... Ts>
-    bool is_variant_helper(std::variant<Ts...>*) const noexcept;
+    bool is_variant_helper(std::variant<Ts...>*) const;
 
     template <typename... Ts>
     std::variant<Ts...> to_variant_helper() const&;
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 1064a84..d3675f0 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -261,7 +261,7 @@ inline bool value::is_object() const noexcept
 }
 
 template <typename value_t>
-inline bool value::is() const noexcept
+inline bool value::is() const
 {
     if constexpr (std::is_same_v<value, value_t>) {
         return true;
@@ -670,14 +670,14 @@ inline object& value::as_object()
 }
 
 template <typename tuple_t, size_t... Is>
-inline bool value::is_tuple_helper(std::index_sequence<Is...>) const noexcept
+inline bool value::is_tuple_helper(std::index_sequence<Is...>) const
 {
     const auto& arr = as_array();
     return (arr[Is].is<std::tuple_element_t<Is, tuple_t>>() && ...);
 }
 
 template <typename... Ts>
-inline bool value::is_variant_helper(std::variant<Ts...>*) const noexcept
+inline bool value::is_variant_helper(std::variant<Ts...>*) const
 {
     return (is<Ts>() || ...);
 }
-- 
2.43.0


From 11121bc6ca050df05fdbece6bc42775a839ec049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 15/25] fix: do not move out of a wrapper that was not moved or
 is shared

---
 include/common/value.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 92cc0da..b852f11 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -143,7 +143,7 @@ public:
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        : value(wrapper ? value(std::move(*wrapper)) : value())
+        : value(wrapper ? wrapped_to_value(std::forward<wrapper_t>(wrapper)) : value())
     {
     }
 
@@ -657,6 +657,20 @@ private:
 
     static var_t deep_copy(const var_t& src);
 
+    // The wrapped object is moved only if the wrapper was moved and owns it alone.
+    template <typename wrapper_t>
+    static value wrapped_to_value(wrapper_t&& wrapper)
+    {
+        constexpr bool owns_alone =
+            std::is_rvalue_reference_v<decltype(*std::forward<wrapper_t>(wrapper))> || !std::is_copy_constructible_v<wrapper_t>;
+        if constexpr (!std::is_lvalue_reference_v<wrapper_t> && owns_alone) {
+            return value(std::move(*wrapper));
+        }
+        else {
+            return value(std::as_const(*wrapper));
+        }
+    }
+
     template <typename... key_then_default_value_t, size_t... keys_indexes_t>
     auto get(std::tuple<key_then_default_value_t...> keys_then_default_value, std::index_sequence<keys_indexes_t...>) const;
 
-- 
2.43.0


From 691b4e5740f705d8ffe22cc03d61e41126e80a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 16/25] fix: get with a string_view default returns a string,
 not a dangling view

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index d3675f0..9ea832c 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -446,11 +446,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -461,10 +461,10 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From bd20556327be2b770418f317d118bae5bc8adfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 17/25] fix: do not truncate a printed floating-point number
 when memory runs out

---
 include/common/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 82e36d1..a8b3c67 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -486,6 +486,7 @@ inline std::string to_basic_string(any_t&& arg)
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // a failed allocation is reported, not printed around
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
         return oss.str();
     }
-- 
2.43.0


From 03a5de468b5678a934f94d00d7e7f247036de984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 18/25] fix: read floating-point numbers independently of the
 locale, denormal ones too

---
 include/common/value_impl.hpp | 69 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 9ea832c..6822f3e 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,11 @@
 #pragma once
 
+#include <charconv>
+#include <locale>
+#include <new>
+#include <sstream>
+#include <system_error>
+
 #include "value.hpp"
 
 namespace json
@@ -27,51 +33,44 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
 }
 
+// Independent of the locale; denormal numbers are numbers.
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result)
 {
-    try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
-
-        if (pos == str.size()) {
-            return result;
-        }
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating-point");
+#if defined(__cpp_lib_to_chars) && __cpp_lib_to_chars >= 201611L
+    const char* first = str.data();
+    const char* last = str.data() + str.size();
+    const auto [ptr, ec] = std::from_chars(first, last, result);
+    if (ec == std::errc::not_enough_memory) {
+        throw std::bad_alloc();
     }
-    catch (const std::exception&) {
+    return ec == std::errc {} && ptr == last;
+#else
+    std::istringstream iss;
+    iss.exceptions(std::ios_base::badbit);
+    iss.imbue(std::locale::classic());
+    iss.str(str);
+    return (iss >> std::noskipws >> result) && iss.peek() == std::istringstream::traits_type::eof();
+#endif
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
 }
 
 template <typename value_t>
-inline bool can_parse_floating(const std::string& str) noexcept
+inline bool can_parse_floating(const std::string& str)
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t parsed {};
+    return try_parse_floating(str, parsed);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From d1c9aa78002862c04ca8f82a5c1a47e967fbf5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 19/25] fix: write floating-point numbers independently of the
 locale

---
 include/common/utils.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index a8b3c67..2973a03 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <iterator>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -482,17 +483,19 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
-    using real_type = std::remove_reference_t<any_t>;
+    using real_type = std::decay_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
         std::ostringstream oss;
         oss.exceptions(std::ios_base::badbit); // a failed allocation is reported, not printed around
+        oss.imbue(std::locale::classic());     // JSON numbers do not depend on the locale
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << std::setprecision(6) << arg;
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
-- 
2.43.0


From d790d3392564d94c6c21dece041d096d45ad4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 20/25] fix: do not narrow an enum value before looking up its
 name

---
 include/common/enum_reflection.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..95068b4 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -184,15 +184,23 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    // The value may lie anywhere in the underlying type, so it must not be narrowed before it is known to be in range.
+    const auto raw = static_cast<std::underlying_type_t<E>>(val);
+    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
+        if (raw < static_cast<long long>(min) || raw > static_cast<long long>(max)) {
+            return {};
+        }
     }
-    return {};
+    else {
+        const auto value = static_cast<unsigned long long>(raw);
+        if (max < 0 || value > static_cast<unsigned long long>(max) || (min > 0 && value < static_cast<unsigned long long>(min))) {
+            return {};
+        }
+    }
+    return names[static_cast<int>(raw) - min];
 }
 
 constexpr bool iequals(std::string_view a, std::string_view b)
-- 
2.43.0


From bc9af0884952af2a1d7afcb9dbae9d566bd3d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 21/25] fix: appending to an array again and again takes linear
 time

---
 include/common/array_impl.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index bcd32ce..b1899c8 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -1,20 +1,31 @@
 #pragma once
 
+#include <algorithm>
+
 #include "array.hpp"
 
 namespace json
 {
 namespace _array_impl_detail
 {
+// Makes room for more elements (which may be the array's own) in steps that grow, so that appending again and again stays linear
+inline void reserve_more(array::raw_array& dst, size_t count)
+{
+    const size_t wanted = dst.size() + count;
+    if (wanted > dst.capacity()) {
+        dst.reserve(std::max(wanted, dst.size() * 2));
+    }
+}
+
 inline void append_array(array::raw_array& dst, const array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_more(dst, src.size());
     dst.insert(dst.end(), src.begin(), src.end());
 }
 
 inline void append_array_move(array::raw_array& dst, array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_more(dst, src.size());
     dst.insert(dst.end(), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
 }
 } // namespace _array_impl_detail
-- 
2.43.0


From 18010e046e8d536b08c1482933fe60a30c0aa6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 22/25] fix: find the names of the largest values of an
 unsigned enum again

---
 include/common/enum_reflection.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index 95068b4..30da072 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -188,19 +188,12 @@ constexpr std::string_view enum_to_string(E val)
     const auto& names = enum_name_storage<E>::names;
 
     // The value may lie anywhere in the underlying type, so it must not be narrowed before it is known to be in range.
-    const auto raw = static_cast<std::underlying_type_t<E>>(val);
-    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
-        if (raw < static_cast<long long>(min) || raw > static_cast<long long>(max)) {
-            return {};
-        }
-    }
-    else {
-        const auto value = static_cast<unsigned long long>(raw);
-        if (max < 0 || value > static_cast<unsigned long long>(max) || (min > 0 && value < static_cast<unsigned long long>(min))) {
-            return {};
-        }
+    // (The largest values of an unsigned type are those that the negative part of the range stands for.)
+    const int number = static_cast<int>(static_cast<std::underlying_type_t<E>>(val));
+    if (number < min || number > max || static_cast<E>(number) != val) {
+        return {};
     }
-    return names[static_cast<int>(raw) - min];
+    return names[number - min];
 }
 
 constexpr bool iequals(std::string_view a, std::string_view b)
-- 
2.43.0


From e7f1cf965a74b98e14fc643a9a877e9162b281f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 23/25] fix: prefer the enumerator of exactly this name to one
 that differs in case

---
 include/common/enum_reflection.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index 30da072..8f5ee5c 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -225,14 +225,18 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    std::optional<E> result;
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
-            if (iequals(names[i], str)) {
+            if (names[i] == str) {
                 return static_cast<E>(i + min);
             }
+            if (!result && iequals(names[i], str)) {
+                result = static_cast<E>(i + min);
+            }
         }
     }
-    return std::nullopt;
+    return result;
 }
 } // namespace _reflection
 } // namespace json
-- 
2.43.0


From 97983f971fd74bbd488358c3e412ba1a1e15d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 24/25] fix: write a field called result like any other

---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From d43154feaade17142b57ae75416124afa8dbaeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 25/25] fix: convert a boolean to an enum of booleans, as the
 type check promises

---
 include/common/value.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index b852f11..563ca57 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -494,6 +494,9 @@ public:
         else if (is_number()) {
             return static_cast<enum_t>(static_cast<std::underlying_type_t<enum_t>>(*this));
         }
+        else if (std::is_same_v<std::underlying_type_t<enum_t>, bool> && is_boolean()) {
+            return static_cast<enum_t>(as_boolean());
+        }
         else {
             throw exception("Cannot convert to enum: expected string or number type, " + value_info());
         }
-- 
2.43.0

