From 0e1c8d49fafa81863a24fb7a75f4c09ea1e2bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:40 +0000
Subject: [PATCH 01/36] fix: perfect hash construction never terminates for
 some sets of member names

---
 include/persistence/detail/perfect_hash.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..f89fa9e 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,14 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // mix high-order bits into low-order bits; the low-order bits of FNV-1 alone permit no collision-free
+                // seed for some sets of keys
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +44,14 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // mix high-order bits into low-order bits; the low-order bits of FNV-1 alone permit no collision-free
+                // seed for some sets of keys
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From 7fc889eb47c013815a573453b9f5696fe828ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:40 +0000
Subject: [PATCH 02/36] fix: parser does not leave an enumeration string value
 when it has been read

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From 81395b1b7b2ee870f74a0411b906fe1f7b88752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:08 +0000
Subject: [PATCH 03/36] fix: parser rejects numbers in a vector or set whose
 items are enumerations, characters or pointers

---
 include/persistence/parse_set.hpp    | 42 ++++++++++++++++++++++++++++
 include/persistence/parse_vector.hpp | 42 ++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..f3ad0c7 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -32,6 +32,38 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number(n);
+        }
+
+    private:
+        template<typename JsonType>
+        bool parse_item(const JsonType& json_item)
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
@@ -40,6 +72,16 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        template<typename JsonType>
+        bool parse_number(const JsonType& json_number)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_number);
+            } else {
+                return this->template fail<JsonType>();
+            }
+        }
+
     private:
         std::vector<T> storage;
         std::set<T>& container;
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..b35b669 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -25,6 +25,38 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number(n);
+        }
+
+    private:
+        template<typename JsonType>
+        bool parse_item(const JsonType& json_item)
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
@@ -32,6 +64,16 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        template<typename JsonType>
+        bool parse_number(const JsonType& json_number)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_number);
+            } else {
+                return this->template fail<JsonType>();
+            }
+        }
+
     private:
         std::vector<T>& container;
     };
-- 
2.43.0


From 11473fc332edb7515932147f5298dd478c4f479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:36 +0000
Subject: [PATCH 04/36] fix: no-throw deserialization of an object forgets a
 failed member when a later member succeeds

---
 include/persistence/deserialize_object.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..420bd1e 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,7 +37,7 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +53,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +76,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
-- 
2.43.0


From 1b6750c1782092b6da4d5b78683d49aea8ddf2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:02 +0000
Subject: [PATCH 05/36] fix: serializing an object to a document drops a member
 that cannot be represented

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..df3c2f7 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 25da8487c93f47f85d0a7d391d9f55f1fe2a2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:31 +0000
Subject: [PATCH 06/36] fix: failures of members declared in a derived class
 are not reported

---
 include/persistence/deserialize_object.hpp | 3 +--
 include/persistence/serialize_object.hpp   | 3 +--
 include/persistence/write_object.hpp       | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 420bd1e..d48966c 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -130,8 +130,7 @@ namespace persistence
             }
 
             JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
-            value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            return static_cast<bool>(value.persist(deserializer));
         }
     };
 }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index df3c2f7..e395a9b 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -109,8 +109,7 @@ namespace persistence
             JsonObjectSerializer<T> serializer(context, value, json);
 
             json.SetObject();
-            const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            return static_cast<bool>(const_cast<T&>(value).persist(serializer));
         }
     };
 }
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..bda3ad0 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -105,8 +105,7 @@ namespace persistence
             JsonObjectWriter serializer(context, value, writer);
 
             writer.StartObject();
-            const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            if (!const_cast<T&>(value).persist(serializer)) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0


From a79eb98f5c42a910f9ae83b57934a14c3cdf8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 07/36] fix: Base64 encoding reads beyond the end of the input
 and from misaligned addresses

---
 include/persistence/base64.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..09c764b 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,8 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
 
 namespace persistence
 {
@@ -100,7 +102,8 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        // each sextet is read with a 64-bit word, which extends 2 bytes past the sextet but may not extend past the input
+        std::size_t fast_sextets = input.size() < sizeof(std::uint64_t) ? 0 : (input.size() - 2) / 6;
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +115,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From c8bb9f015ab24be223a6589a0ea41f1471b9bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 08/36] fix: document parsed from a temporary string refers to
 memory of that string

---
 include/persistence/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..299567f 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.Parse(str.data());  // in-situ parsing would have the document refer to the memory of a temporary
         return doc;
     }
 }
-- 
2.43.0


From 20456c31dfea3be61a0429c919513973a601e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:34 +0000
Subject: [PATCH 09/36] fix: keys with embedded NUL characters are truncated on
 deserialization

---
 include/persistence/deserialize_map.hpp    | 7 +++++--
 include/persistence/deserialize_object.hpp | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..ed29f1e 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -3,6 +3,8 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include <map>
+#include <string>
+#include <string_view>
 #include <unordered_map>
 
 namespace persistence
@@ -22,12 +24,13 @@ namespace persistence
 
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
+                std::string_view name(it->name.GetString(), it->name.GetStringLength());
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                DeserializerContext item_context(context, Segment(name));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(name)] = std::move(item);
             }
             return true;
         }
diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index d48966c..d561a85 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -36,7 +36,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 T value;
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
@@ -52,7 +52,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
@@ -75,7 +75,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
-- 
2.43.0


From df68a6c3481b31cbc570592e7fd6b67525c5eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 10/36] fix: paths do not escape special characters and mistake
 an empty name for an index

---
 include/persistence/detail/path.hpp    | 11 ++++++++++-
 include/persistence/detail/segment.hpp | 10 +++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..f966e90 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,7 +24,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape characters with a special meaning in JSON Pointer
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..381e4ad 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,21 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
+
+    private:
+        /** Tells apart an array index from a property name, which may be empty. */
+        bool named = false;
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From 32144a4f69da2a7912ed7b48f9fa8f53d169c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 11/36] fix: back-references into a set lack the index of the
 item

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From c38b231fdaa7a1deed182d27ac0a8e0926551afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:37 +0000
Subject: [PATCH 12/36] fix: malformed back-references crash and unresolved
 back-references are silently ignored

---
 include/persistence/deserialize_pointer.hpp | 48 ++++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..a89468b 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
 #include <memory>
@@ -40,18 +42,16 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
-                        return false;
+                    PERSISTENCE_IF_UNLIKELY(!resolve(it->value, pointer)) {
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "back-reference does not identify an object encountered earlier",
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
-
-                    auto ref = context.get(object);
-                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
-                    }
-
-                    pointer = std::reinterpret_pointer_cast<T>(ref.value());
                     return true;
                 }
             }
@@ -64,5 +64,31 @@ namespace persistence
             context.put(&json, pointer);
             return true;
         }
+
+    private:
+        bool resolve(const rapidjson::Value& json_ref, std::shared_ptr<T>& pointer) const
+        {
+            if (!json_ref.IsString()) {
+                return false;
+            }
+
+            rapidjson::Pointer path(json_ref.GetString(), json_ref.GetStringLength());
+            if (!path.IsValid()) {
+                return false;
+            }
+
+            rapidjson::Value* object = path.Get(context.document());
+            if (!object) {
+                return false;
+            }
+
+            auto ref = context.get(object);
+            if (!ref.has_value()) {
+                return false;
+            }
+
+            pointer = std::reinterpret_pointer_cast<T>(ref.value());
+            return true;
+        }
     };
 }
-- 
2.43.0


From a3a7f75565dea8653a0a475f25e59e928d5d3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 13/36] fix: back-reference to an object of a different type is
 accepted and misinterpreted

---
 include/persistence/deserialize_pointer.hpp     |  6 +++---
 .../persistence/detail/deserialize_context.hpp  | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index a89468b..93f1e5f 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -82,12 +82,12 @@ namespace persistence
                 return false;
             }
 
-            auto ref = context.get(object);
-            if (!ref.has_value()) {
+            auto ref = context.template get<T>(object);
+            if (!ref) {
                 return false;
             }
 
-            pointer = std::reinterpret_pointer_cast<T>(ref.value());
+            pointer = std::move(ref);
             return true;
         }
     };
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..9ea1883 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,9 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
@@ -10,7 +13,8 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        /** Objects encountered earlier, identified by their position in the document and their type. */
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +30,17 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
+        template<typename T>
+        std::shared_ptr<T> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            auto object = global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
+            return object ? std::static_pointer_cast<T>(*object) : nullptr;
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        template<typename T>
+        void put(const rapidjson::Value* pointer, const std::shared_ptr<T>& object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From 57c197860811be1385a2ed23c4d42c921b9c5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 14/36] fix: back-reference resolves to an object discarded by
 a failed variant alternative

---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From 5a6529c62f858dabb297bc8452c6dbca402920d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:29 +0000
Subject: [PATCH 15/36] fix: object that shares its address with its first
 member is mistaken for that member

---
 include/persistence/detail/output_context.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..c463251 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,15 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        /** Paths of objects encountered earlier, identified by their address and their type. */
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +27,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get({ pointer, typeid(T) });
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put({ pointer, typeid(T) }, segments());
         }
 
         GlobalContext& global()
-- 
2.43.0


From 9694e3d754b24b897aaa1070a377ce49d8c16a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:08 +0000
Subject: [PATCH 16/36] fix: parser appends to items a container holds by
 default rather than replacing them

---
 include/persistence/parse_map.hpp    | 1 +
 include/persistence/parse_set.hpp    | 1 +
 include/persistence/parse_vector.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 73593b2..c5c320e 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -45,6 +45,7 @@ namespace persistence
 
         bool parse(const JsonObjectStart&) override
         {
+            container.clear();
             context.replace<JsonMapParser<C>>(context, container);
             return true;
         }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index f3ad0c7..269490c 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -284,6 +284,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonSetParser<T>>(context, ref);
             return true;
         }
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index b35b669..951a5e0 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -275,6 +275,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonArrayParser<T>>(context, ref);
             return true;
         }
-- 
2.43.0


From 394024cd1b05ece68a934642e4e4c050068c27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:15 +0000
Subject: [PATCH 17/36] fix: parser accepts an object that lacks a required
 property

---
 include/persistence/parse_object.hpp | 53 ++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 85958ab..c28d223 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -83,6 +83,32 @@ namespace persistence
         {}
     };
 
+    namespace detail
+    {
+        /** Invoked when there is no key in a JSON object for an optional member variable. */
+        template<typename C, typename T, class B, auto P, typename D>
+        bool parse_missing(ReaderContext&, C& object, const member::variable<std::optional<T>, B, P, D>& member)
+        {
+            member.ref(object) = std::nullopt;
+            return true;
+        }
+
+        /** Invoked when there is no key in a JSON object for a required member variable. */
+        template<typename C, typename T, class B, auto P, typename D>
+        bool parse_missing(ReaderContext& context, C&, const member::variable<T, B, P, D>& member)
+        {
+            context.fail("missing required property: " + std::string(member.name()));
+            return false;
+        }
+
+        /** Invoked when there is no key in a JSON object for a member variable with a default value. */
+        template<typename C, typename T, class B, auto P, typename D>
+        bool parse_missing(ReaderContext&, C&, const member::variable_default<T, B, P, D>&)
+        {
+            return true;
+        }
+    }
+
     template<typename C>
     struct JsonSoloObjectParser : JsonParseHandler<JsonObjectKey, JsonObjectEnd>
     {
@@ -96,6 +122,10 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            if (!found && !detail::parse_missing(context, ref, member_type())) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -108,6 +138,7 @@ namespace persistence
                 return false;
             }
 
+            found = true;
             using parser_type = JsonParser<unqualified_t<decltype(member_type().ref(ref))>>;
             context.emplace<parser_type>(context, member_type().ref(ref));
             return true;
@@ -117,6 +148,7 @@ namespace persistence
         using member_type = typename std::tuple_element<0, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view member_name = member_type().name();
         C& ref;
+        bool found = false;
     };
 
     template<typename C>
@@ -132,6 +164,13 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            if (!first_found && !detail::parse_missing(context, ref, first_member_type())) {
+                return false;
+            }
+            if (!second_found && !detail::parse_missing(context, ref, second_member_type())) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -140,10 +179,12 @@ namespace persistence
         {
             std::string_view identifier = json_key.identifier;
             if (identifier == first_member_name) {
+                first_found = true;
                 using parser_type = JsonParser<unqualified_t<decltype(first_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, first_member_type().ref(ref));
                 return true;
             } else if (identifier == second_member_name) {
+                second_found = true;
                 using parser_type = JsonParser<unqualified_t<decltype(second_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, second_member_type().ref(ref));
                 return true;
@@ -159,6 +200,8 @@ namespace persistence
         using second_member_type = typename std::tuple_element<1, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view second_member_name = second_member_type().name();
         C& ref;
+        bool first_found = false;
+        bool second_found = false;
     };
 
     template<typename C>
@@ -174,6 +217,14 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            bool complete = std::apply([&](auto&&... member) {
+                std::size_t k = 0;
+                return (... && (found.get(k++) || detail::parse_missing(context, ref, member)));
+            }, members);
+            if (!complete) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -187,6 +238,7 @@ namespace persistence
                 return false;
             }
 
+            found.set(k);
             visit_at(members, k, [&](auto&& member) {
                 using parser_type = JsonParser<unqualified_t<decltype(member.ref(ref))>>;
                 context.emplace<parser_type>(context, member.ref(ref));
@@ -206,6 +258,7 @@ namespace persistence
         inline static auto names = member_names();
         inline static auto hash_map = PerfectHash(names);
         C& ref;
+        BitSet<class_traits<C>::member_count> found;
     };
 
     template<typename T>
-- 
2.43.0


From 421fd1e4e551f86242dbfb9f08b9caae663715fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:03 +0000
Subject: [PATCH 18/36] fix: floating-point numbers are read with a rounding
 error

---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 2 +-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..7425c18 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..321d7ce 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,7 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
         }
     }
 
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 299567f..ec1774a 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());  // in-situ parsing would have the document refer to the memory of a temporary
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());  // in-situ parsing would have the document refer to the memory of a temporary
         return doc;
     }
 }
-- 
2.43.0


From d28ef6c2d5e2d252658c6c78d037261274c59af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:54 +0000
Subject: [PATCH 19/36] fix: deserializing a number out of range of single
 precision yields infinity

---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..ad98d52 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            auto double_value = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(double_value)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(double_value);
             return true;
         }
     };
-- 
2.43.0


From 028951ae0b5cc30144ff518651c356ed7cb68a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:16 +0000
Subject: [PATCH 20/36] fix: date-time beyond the range of a time point is read
 as a different date-time

---
 include/persistence/datetime.hpp | 51 ++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..483b191 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -35,19 +35,48 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Converts a Gregorian calendar date and UTC time into a POSIX timestamp (seconds since epoch).
+         */
+        inline std::time_t make_posix_time(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+
+        /**
+         * Converts a POSIX timestamp to a chrono time point, unless it is out of the range of the chrono time point.
+         */
+        inline bool posix_to_timestamp(std::time_t posix_time, timestamp& value)
+        {
+            using std::chrono::duration_cast;
+            using std::chrono::seconds;
+            PERSISTENCE_IF_UNLIKELY(
+                posix_time < duration_cast<seconds>(timestamp::min().time_since_epoch()).count() ||
+                posix_time > duration_cast<seconds>(timestamp::max().time_since_epoch()).count()
+            ) {
+                return false;
+            }
+
+            value = std::chrono::system_clock::from_time_t(posix_time);
+            return true;
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
+        std::time_t t = detail::make_posix_time(year, month, day, hour, minute, second);
         return std::chrono::system_clock::from_time_t(t);
     }
 
@@ -125,8 +154,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
-        return true;
+        return detail::posix_to_timestamp(detail::make_posix_time(year, month, day, 0, 0, 0), value);
     }
 
     /**
@@ -166,8 +194,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return detail::posix_to_timestamp(detail::make_posix_time(year, month, day, hour, minute, second), value);
     }
 
     namespace detail
-- 
2.43.0


From a705d58cd69be32b23846c3fb98428a2296a3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:19 +0000
Subject: [PATCH 21/36] fix: calendar dates beyond the range of a time point
 are written and read as different dates

---
 include/persistence/datetime.hpp         | 73 +++++++++++++++++++-----
 include/persistence/deserialize_date.hpp |  4 +-
 include/persistence/parse_date.hpp       |  4 +-
 include/persistence/serialize_date.hpp   |  7 ++-
 include/persistence/write_date.hpp       |  7 ++-
 5 files changed, 72 insertions(+), 23 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 483b191..31d689f 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -125,6 +125,27 @@ namespace persistence
             auto result = std::from_chars(first, last, value);
             return result.ec == std::errc() && result.ptr == last;
         }
+
+        inline bool parse_calendar_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
+        {
+            PERSISTENCE_IF_UNLIKELY(len != 10) {
+                return false;
+            }
+
+            PERSISTENCE_IF_UNLIKELY(text[4] != '-' || text[7] != '-') {
+                return false;
+            }
+
+            PERSISTENCE_IF_UNLIKELY(
+                !from_digits(text, text + 4, year) ||
+                !from_digits(text + 5, text + 7, month) ||
+                !from_digits(text + 8, text + 10, day)
+            ) {
+                return false;
+            }
+
+            return is_valid_date(year, month, day);
+        }
     }
 
     /**
@@ -132,30 +153,29 @@ namespace persistence
      */
     inline bool parse_date(const char* text, std::size_t len, timestamp& value)
     {
-        PERSISTENCE_IF_UNLIKELY(len != 10) {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!detail::parse_calendar_date(text, len, year, month, day)) {
             return false;
         }
 
-        PERSISTENCE_IF_UNLIKELY(text[4] != '-' || text[7] != '-') {
-            return false;
-        }
+        return detail::posix_to_timestamp(detail::make_posix_time(year, month, day, 0, 0, 0), value);
+    }
 
-        using detail::from_digits;
+#if __cplusplus >= 202002L
+    /**
+     * Parses a calendar date from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, std::chrono::year_month_day& value)
+    {
         unsigned year, month, day;
-        PERSISTENCE_IF_UNLIKELY(
-            !from_digits(text, text + 4, year) ||
-            !from_digits(text + 5, text + 7, month) ||
-            !from_digits(text + 8, text + 10, day)
-        ) {
+        PERSISTENCE_IF_UNLIKELY(!detail::parse_calendar_date(text, len, year, month, day)) {
             return false;
         }
 
-        PERSISTENCE_IF_UNLIKELY(!is_valid_date(year, month, day)) {
-            return false;
-        }
-
-        return detail::posix_to_timestamp(detail::make_posix_time(year, month, day, 0, 0, 0), value);
+        value = std::chrono::year(static_cast<int>(year)) / static_cast<int>(month) / static_cast<int>(day);
+        return true;
     }
+#endif
 
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
@@ -292,6 +312,29 @@ namespace persistence
         return dt;
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Converts a calendar date to an ISO 8601 date string, unless the year takes more than four digits.
+     */
+    inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
+    {
+        // normalize calendar date, e.g. month overflow
+        value = std::chrono::sys_days(value);
+
+        int year = static_cast<int>(value.year());
+        PERSISTENCE_IF_UNLIKELY(year < 0 || year > 9999) {
+            return false;
+        }
+
+        dt = iso_date();
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), static_cast<int>(static_cast<unsigned>(value.month())));
+        to_aligned_digits<2>(dt.day(), static_cast<int>(static_cast<unsigned>(value.day())));
+        return true;
+    }
+#endif
+
     /**
      * Converts a chrono time point to an ISO 8601 date-time string.
      */
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..89301af 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,7 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +32,6 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..469ef34 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,11 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ref)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..f0856e2 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -5,6 +5,7 @@
 #include "datetime.hpp"
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -15,7 +16,11 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..861cd8a 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -4,6 +4,7 @@
 #endif
 #include "datetime.hpp"
 #include "write_base.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -12,7 +13,11 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From f7ca730f5d233aa8bc70eac8d400f5a43b82becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:56 +0000
Subject: [PATCH 22/36] fix: formatting a date-time concurrently from multiple
 threads is a data race

---
 include/persistence/datetime.hpp | 38 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 31d689f..cf63240 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_s(cal, &posix_time);
+        }
     }
 }
 #else
@@ -27,6 +34,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_r(&posix_time, cal);
+        }
     }
 }
 #endif
@@ -297,10 +311,11 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        std::tm calendar_time;
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -344,13 +359,14 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        std::tm calendar_time;
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 71d2c56b12ca8c291aef0994b39de0cb2df61dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:41 +0000
Subject: [PATCH 23/36] fix: parsing deeply nested JSON exits with an
 undocumented exception

---
 include/persistence/parse.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 321d7ce..6e10f84 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -3,6 +3,7 @@
 #include "exception.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
+#include <stdexcept>
 
 namespace persistence
 {
@@ -15,9 +16,15 @@ namespace persistence
             rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
 
-            // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
-            // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            try {
+                // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
+                // rapidjson from parsing numbers and emitting type-specific events
+                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            } catch (const std::out_of_range&) {
+                // composite values are nested deeper than the capacity of the parser stack
+                context.fail("JSON nesting too deep");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From 738ee02eb882daf83b49fa86b0942fdb80cdf0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:45 +0000
Subject: [PATCH 24/36] fix: JSON schema of an enumeration rejects each of its
 values

---
 include/persistence/schema.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..44e18bc 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,6 +7,9 @@
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+#include <boost/describe/enumerators.hpp>
+#endif
 
 namespace persistence
 {
@@ -331,11 +334,13 @@ namespace persistence
         static auto type()
         {
             if constexpr (detect<T, enum_to_string_function>::value) {
-                return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
+                return JsonSchemaFundamentalType("string");
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+            } else if constexpr (::boost::describe::has_describe_enumerators<T>::value) {
+                return JsonSchemaFundamentalType("string");
+#endif
             } else {
-                return JsonSchemaEnumType("object");
+                return JsonSchema<std::underlying_type_t<T>>::type();
             }
         }
     };
-- 
2.43.0


From fd64f54dc3605f8d649f6033cc3f9542a2096afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:02 +0000
Subject: [PATCH 25/36] fix: generating the JSON schema of a recursive type
 never terminates

---
 include/persistence/schema.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 44e18bc..4d8b2a2 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -5,6 +5,7 @@
 #include "dictionary.hpp"
 #include "object.hpp"
 #include "detail/defer.hpp"
+#include "detail/pointer_traits.hpp"
 #include "detail/traits.hpp"
 #include <set>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
@@ -394,14 +395,17 @@ namespace persistence
     template<typename T>
     JsonSchemaType make_schema(JsonSchemaContext& context)
     {
-        if constexpr (is_schema_traversable_v<T>) {
-            // save sub-schema in context
-            context.definitions.insert(
-                std::make_pair(
-                    std::string_view(typeid(T).name()),
-                    JsonSchema<T>::type(context)
-                )
-            );
+        if constexpr (is_smart_pointer<T>::value) {
+            // a pointer has the same representation as the object it points to
+            return make_schema<typename T::element_type>(context);
+        } else if constexpr (is_schema_traversable_v<T>) {
+            // save sub-schema in context, unless the sub-schema (or a sub-schema in progress) has already been saved
+            std::string_view name(typeid(T).name());
+            auto inserted = context.definitions.insert(std::make_pair(name, JsonSchemaReferenceType()));
+            if (inserted.second) {
+                auto type = JsonSchema<T>::type(context);
+                context.definitions.insert_or_assign(name, std::move(type));
+            }
 
             // use alias to refer to sub-schema
             return JsonSchemaReferenceType(
-- 
2.43.0


From 7a2e25bbbb993182b43ad24977256db132a4c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:41 +0000
Subject: [PATCH 26/36] fix: enumeration name followed by a NUL character and
 arbitrary text is accepted

---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 7bcc71cbdfe292a3b0c58648f7e1ddc6776c29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:43 +0000
Subject: [PATCH 27/36] fix: control characters U+001A to U+001F in strings are
 written and accepted unescaped

---
 include/persistence/detail/config.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/config.hpp b/include/persistence/detail/config.hpp
index 62bd4cd..2a21283 100644
--- a/include/persistence/detail/config.hpp
+++ b/include/persistence/detail/config.hpp
@@ -1,10 +1,8 @@
 #pragma once
 
 // detect instructions which speed up RapidJSON whitespace identification
-#if defined(__SSE4_2__)
-#define RAPIDJSON_SSE42
-#elif defined(__SSE2__) || (defined(_MSC_VER) && defined(_M_X64))
-#define RAPIDJSON_SSE2
-#elif defined(__ARM_NEON)
+// (RAPIDJSON_SSE2 and RAPIDJSON_SSE42 are left undefined because they make RapidJSON 1.1.0 take the control characters
+// U+001A to U+001F in strings for characters that need no escaping, both on output and on input)
+#if defined(__ARM_NEON)
 #define RAPIDJSON_NEON
 #endif
-- 
2.43.0


From d114295fa6af42ff58b2b7feb8566c22dd0da392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:03 +0000
Subject: [PATCH 28/36] fix: zeros with an exponent and numbers below the range
 of double are misread or crash

The full precision mode of RapidJSON 1.1.0, enabled by 421fd1e, accesses memory out of bounds for such numbers.
---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 2 +-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 7425c18..45661ed 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        doc.Parse(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
+        doc.ParseInsitu(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        doc.Parse(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
+        doc.ParseInsitu(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 6e10f84..117d05b 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -19,7 +19,7 @@ namespace persistence
             try {
                 // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
                 // rapidjson from parsing numbers and emitting type-specific events
-                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                return reader.Parse(stream, context.dispatcher);
             } catch (const std::out_of_range&) {
                 // composite values are nested deeper than the capacity of the parser stack
                 context.fail("JSON nesting too deep");
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index ec1774a..299567f 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        doc.Parse(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());  // in-situ parsing would have the document refer to the memory of a temporary
+        doc.Parse(str.data());  // in-situ parsing would have the document refer to the memory of a temporary
         return doc;
     }
 }
-- 
2.43.0


From 09390faf87cd2d25c8c099fd6c2dfae97c14e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 29/36] fix: numbers beyond the range of double are read as
 infinity

---
 include/persistence/deserialize_fundamental.hpp | 3 ++-
 include/persistence/parse_fundamental.hpp       | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index ad98d52..643f5b8 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -4,6 +4,7 @@
 #include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
+#include <cmath>
 
 namespace persistence
 {
@@ -292,7 +293,7 @@ namespace persistence
             }
 
             auto double_value = json.GetDouble();
-            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(double_value)) {
+            PERSISTENCE_IF_UNLIKELY(!std::isfinite(double_value) || !is_assignable<T>(double_value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "floating-point number out of range",
diff --git a/include/persistence/parse_fundamental.hpp b/include/persistence/parse_fundamental.hpp
index 3ac016d..775f166 100644
--- a/include/persistence/parse_fundamental.hpp
+++ b/include/persistence/parse_fundamental.hpp
@@ -3,6 +3,7 @@
 #include "parse_base.hpp"
 #include "detail/numeric_traits.hpp"
 #include "detail/unlikely.hpp"
+#include <cmath>
 
 namespace persistence
 {
@@ -54,6 +55,13 @@ namespace persistence
         template<typename V>
         static bool parse(ReaderContext& context, V value, T& ref)
         {
+            if constexpr (std::is_floating_point_v<V>) {
+                PERSISTENCE_IF_UNLIKELY(!std::isfinite(value)) {
+                    context.fail("floating-point number out of range");
+                    return false;
+                }
+            }
+
             PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(value)) {
                 context.fail("number cannot be assigned without data loss");
                 return false;
-- 
2.43.0


From 74ed0e6a9457a7b711166312e490c96079167486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 30/36] fix: back-reference to a property whose name has a NUL
 character is misresolved

---
 include/persistence/deserialize_pointer.hpp | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index 93f1e5f..6bfcfea 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -77,7 +77,7 @@ namespace persistence
                 return false;
             }
 
-            rapidjson::Value* object = path.Get(context.document());
+            const rapidjson::Value* object = find(path, context.document());
             if (!object) {
                 return false;
             }
@@ -90,5 +90,26 @@ namespace persistence
             pointer = std::move(ref);
             return true;
         }
+
+        /** Finds the value a JSON pointer identifies, comparing member names in full (including any NUL character). */
+        static const rapidjson::Value* find(const rapidjson::Pointer& path, const rapidjson::Value& root)
+        {
+            const rapidjson::Value* value = &root;
+            for (std::size_t k = 0; k < path.GetTokenCount(); ++k) {
+                auto&& token = path.GetTokens()[k];
+                if (value->IsObject()) {
+                    auto&& it = value->FindMember(rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
+                    if (it == value->MemberEnd()) {
+                        return nullptr;
+                    }
+                    value = &it->value;
+                } else if (value->IsArray() && token.index < value->Size()) {
+                    value = &(*value)[token.index];
+                } else {
+                    return nullptr;
+                }
+            }
+            return value;
+        }
     };
 }
-- 
2.43.0


From bd256eb94c6d03f8e44a92c6f185654870e6a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 31/36] fix: empty string view without data as dictionary key
 aborts serialization

---
 include/persistence/serialize_map.hpp | 2 +-
 include/persistence/write_map.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_map.hpp b/include/persistence/serialize_map.hpp
index 62fb738..1c2826e 100644
--- a/include/persistence/serialize_map.hpp
+++ b/include/persistence/serialize_map.hpp
@@ -24,7 +24,7 @@ namespace persistence
                 }
 
                 rapidjson::Value key_json;
-                key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());
+                key_json.SetString(key.size() > 0 ? key.data() : "", static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());
                 json.AddMember(key_json, value_json, context.global().allocator());  // ownership of key and value is transferred
             }
             return true;
diff --git a/include/persistence/write_map.hpp b/include/persistence/write_map.hpp
index 2125864..47cb233 100644
--- a/include/persistence/write_map.hpp
+++ b/include/persistence/write_map.hpp
@@ -17,7 +17,7 @@ namespace persistence
         {
             writer.StartObject();
             for (auto&& [key, value] : container) {
-                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);
+                writer.Key(key.size() > 0 ? key.data() : "", static_cast<rapidjson::SizeType>(key.size()), true);
 
                 WriterContext value_context(context, Segment(key));
                 PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, writer, value_context)) {
-- 
2.43.0


From 7d995bf2c780f20e4f261ca36974ad60f0a6d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:30 +0000
Subject: [PATCH 32/36] fix: largest single-precision number cannot be read
 back

---
 include/persistence/detail/numeric_traits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/numeric_traits.hpp b/include/persistence/detail/numeric_traits.hpp
index 23a40d3..be792df 100644
--- a/include/persistence/detail/numeric_traits.hpp
+++ b/include/persistence/detail/numeric_traits.hpp
@@ -64,8 +64,10 @@ namespace persistence
                     // non-narrowing assignment
                     return true;
                 } else {
-                    // check if value is within range of receiving floating point type
-                    return value >= std::numeric_limits<T>::lowest() && value <= std::numeric_limits<T>::max();
+                    // check if value is within range of receiving floating point type after rounding to nearest
+                    constexpr V max = std::numeric_limits<T>::max();
+                    constexpr V limit = max + max * std::numeric_limits<T>::epsilon() / 4;
+                    return value >= -limit && value <= limit;
                 }
             } else if constexpr (std::is_integral_v<V>) {
                 if constexpr (std::numeric_limits<T>::digits >= std::numeric_limits<V>::digits) {
-- 
2.43.0


From a2514cd7099dc7bb5469ecee3972186cbe705c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:46 +0000
Subject: [PATCH 33/36] fix: calendar date that does not exist is written as a
 different date

---
 include/persistence/datetime.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index cf63240..f089064 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -329,15 +329,12 @@ namespace persistence
 
 #if __cplusplus >= 202002L
     /**
-     * Converts a calendar date to an ISO 8601 date string, unless the year takes more than four digits.
+     * Converts a calendar date to an ISO 8601 date string, unless the date does not exist or its year takes more than four digits.
      */
     inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
     {
-        // normalize calendar date, e.g. month overflow
-        value = std::chrono::sys_days(value);
-
         int year = static_cast<int>(value.year());
-        PERSISTENCE_IF_UNLIKELY(year < 0 || year > 9999) {
+        PERSISTENCE_IF_UNLIKELY(!value.ok() || year < 0 || year > 9999) {
             return false;
         }
 
-- 
2.43.0


From 8c75eab3eb6bef253b57d90ac5cdccb415be2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:01 +0000
Subject: [PATCH 34/36] fix: number literal beyond the range of the type is
 converted to infinity

---
 include/persistence/number.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/persistence/number.hpp b/include/persistence/number.hpp
index d3fd074..d923f5d 100644
--- a/include/persistence/number.hpp
+++ b/include/persistence/number.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "detail/defer.hpp"
 #include <charconv>
+#include <cmath>
 #include <cstdlib>
 #include <string_view>
 
@@ -49,7 +50,7 @@ namespace persistence
         {
             char* last;
             value = std::strtof(str.data(), &last);
-            return last == str.data() + str.size();
+            return last == str.data() + str.size() && std::isfinite(value);
         }
     };
 
@@ -60,7 +61,7 @@ namespace persistence
         {
             char* last;
             value = std::strtod(str.data(), &last);
-            return last == str.data() + str.size();
+            return last == str.data() + str.size() && std::isfinite(value);
         }
     };
 
@@ -71,7 +72,7 @@ namespace persistence
         {
             char* last;
             value = std::strtold(str.data(), &last);
-            return last == str.data() + str.size();
+            return last == str.data() + str.size() && std::isfinite(value);
         }
     };
 #endif
-- 
2.43.0


From 3b73554cf66331a498887e0a76b9d9f4c927e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:22 +0000
Subject: [PATCH 35/36] fix: exception from the construction of a parse handler
 makes the parser destroy another handler twice

---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..2a7ea13 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,13 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                auto object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
+                // register the object only once its constructor has completed without an exception
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From c8e2fabda027170719645122c9ea96b175bef9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:26 +0000
Subject: [PATCH 36/36] fix: parser binds a reference to a null pointer after
 the outermost value

---
 include/persistence/detail/polymorphic_stack.hpp | 6 ++++++
 include/persistence/parse_base.hpp               | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 2a7ea13..a578290 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -53,6 +53,12 @@ namespace persistence
                 return *reinterpret_cast<Base*>(current);
             }
 
+            /** The topmost object, or null if the stack is empty. */
+            Base* top()
+            {
+                return reinterpret_cast<Base*>(current);
+            }
+
             ~PolymorphicStack()
             {
                 while (count > 0) {
diff --git a/include/persistence/parse_base.hpp b/include/persistence/parse_base.hpp
index 1d4c39f..5986814 100644
--- a/include/persistence/parse_base.hpp
+++ b/include/persistence/parse_base.hpp
@@ -26,7 +26,7 @@ namespace persistence
         void pop()
         {
             stack.pop();
-            dispatcher.handler = &stack.back();
+            dispatcher.handler = stack.top();
         }
 
         template<typename C, typename... T>
-- 
2.43.0

