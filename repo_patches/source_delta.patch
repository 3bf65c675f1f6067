From ea7781455535d65cb7567aef27613abcfb04bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 01/42] fix: perfect hash construction never terminates for
 member names equal in low-order bits

---
 include/persistence/detail/perfect_hash.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..2146571 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,11 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // spread differences between keys to all bits (otherwise, low-order bits of the hash depend only on
+                // the low-order bits of characters, and keys that match in those bits collide for any seed)
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +41,11 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // spread differences between keys to all bits (otherwise, low-order bits of the hash depend only on
+                // the low-order bits of characters, and keys that match in those bits collide for any seed)
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From 292560d48875bcae8712a63c7dbd58a48a08e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 02/42] fix: object deserializer forgets failure of a member
 when a later member succeeds

---
 include/persistence/deserialize_object.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..420bd1e 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,7 +37,7 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +53,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +76,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
-- 
2.43.0


From cdbc1c87c5db67656d5d0e07c14719ac5dac97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 03/42] fix: object serializer drops members that cannot be
 serialized instead of failing

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..df3c2f7 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 5a713942b879262e6719e5cdfe954c8b4f125737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 04/42] fix: failure of a derived class member is lost when
 writing or reading an object

---
 include/persistence/deserialize_object.hpp | 10 ++++++----
 include/persistence/serialize_object.hpp   | 10 ++++++----
 include/persistence/write_object.hpp       | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 420bd1e..af63f87 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -22,10 +22,11 @@ namespace persistence
     template<bool Exception, typename C>
     struct JsonObjectDeserializer : JsonContextAwareDeserializer
     {
-        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object)
+        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object, bool& result)
             : JsonContextAwareDeserializer(context)
             , json_object(json_object)
             , object(object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -98,8 +99,8 @@ namespace persistence
         /** The C++ object into which data is written. */
         C& object;
 
-        /** The result of deserializing the entire object. */
-        bool result = true;
+        /** The result of deserializing the entire object, shared by copies of this archive made in `persist`. */
+        bool& result;
     };
 
     template<typename T>
@@ -129,7 +130,8 @@ namespace persistence
                 return false;
             }
 
-            JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
+            bool result = true;
+            JsonObjectDeserializer<Exception, T> deserializer(context, json, value, result);
             value.persist(deserializer);
             return static_cast<bool>(deserializer);
         }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index df3c2f7..d56db06 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -11,10 +11,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectSerializer : JsonContextAwareSerializer
     {
-        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object)
+        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object, bool& result)
             : JsonContextAwareSerializer(context)
             , object(object)
             , json_object(json_object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -79,8 +80,8 @@ namespace persistence
         /** The JSON object into which data is written. */
         rapidjson::Value& json_object;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared by copies of this archive made in `persist`. */
+        bool& result;
     };
 
     template<typename T>
@@ -106,7 +107,8 @@ namespace persistence
 
         bool operator()(const T& value, rapidjson::Value& json) const
         {
-            JsonObjectSerializer<T> serializer(context, value, json);
+            bool result = true;
+            JsonObjectSerializer<T> serializer(context, value, json, result);
 
             json.SetObject();
             const_cast<T&>(value).persist(serializer);
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..8d3314e 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -12,10 +12,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectWriter : JsonContextAwareWriter
     {
-        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer)
+        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer, bool& result)
             : JsonContextAwareWriter(context)
             , object(object)
             , writer(writer)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -75,8 +76,8 @@ namespace persistence
         /** The JSON string buffer into which data is written. */
         StringWriter& writer;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared by copies of this archive made in `persist`. */
+        bool& result;
     };
 
     template<typename T>
@@ -102,7 +103,8 @@ namespace persistence
 
         bool operator()(const T& value, StringWriter& writer) const
         {
-            JsonObjectWriter serializer(context, value, writer);
+            bool result = true;
+            JsonObjectWriter serializer(context, value, writer, result);
 
             writer.StartObject();
             const_cast<T&>(value).persist(serializer);
-- 
2.43.0


From beaa1f3601a052b69cffde615272a947f583a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 05/42] fix: parser of enumeration strings does not hand back
 control to enclosing element

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From 9edf270611edea32415d39aacdacc9c8a67dcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 06/42] fix: vector and set parsers reject numbers for item
 types stored as numbers (characters, enumerations, pointers)

---
 include/persistence/parse_set.hpp    | 39 ++++++++++++++++++++++++++++
 include/persistence/parse_vector.hpp | 39 ++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..11ca3c9 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -40,6 +40,45 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number(n);
+        }
+
+    private:
+        template<typename V>
+        bool parse_number(const V& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                storage.emplace_back();
+                ReaderContext& ctx = this->context;
+                auto&& handler = ctx.emplace<JsonParser<T>>(ctx, storage.back());
+                return handler.parse(json_item);
+            } else {
+                return this->template fail<V>();
+            }
+        }
+
     private:
         std::vector<T> storage;
         std::set<T>& container;
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..0e27d97 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -32,6 +32,45 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number(n);
+        }
+
+    private:
+        template<typename V>
+        bool parse_number(const V& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                container.emplace_back();
+                ReaderContext& ctx = this->context;
+                auto&& handler = ctx.emplace<JsonParser<T>>(ctx, container.back());
+                return handler.parse(json_item);
+            } else {
+                return this->template fail<V>();
+            }
+        }
+
     private:
         std::vector<T>& container;
     };
-- 
2.43.0


From a3b474031516fb9efe9c0d126e09da3dd93a7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:45 +0000
Subject: [PATCH 07/42] fix: parser accepts objects with missing required
 properties

---
 include/persistence/parse_object.hpp | 51 ++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 85958ab..20fb455 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -7,6 +7,7 @@
 #include "detail/perfect_hash.hpp"
 #include "detail/traits.hpp"
 #include "detail/unlikely.hpp"
+#include <bitset>
 #include <optional>
 
 namespace persistence
@@ -83,6 +84,19 @@ namespace persistence
         {}
     };
 
+    /** True if the JSON property corresponding to the member variable must be present in the JSON object. */
+    template<typename Member>
+    struct is_required_member : std::false_type
+    {};
+
+    template<typename T, class B, auto P, typename D>
+    struct is_required_member<member::variable<T, B, P, D>> : std::true_type
+    {};
+
+    template<typename T, class B, auto P, typename D>
+    struct is_required_member<member::variable<std::optional<T>, B, P, D>> : std::false_type
+    {};
+
     template<typename C>
     struct JsonSoloObjectParser : JsonParseHandler<JsonObjectKey, JsonObjectEnd>
     {
@@ -96,6 +110,11 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            PERSISTENCE_IF_UNLIKELY(is_required_member<member_type>::value && !found) {
+                context.fail("missing required property: " + std::string(member_name));
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -110,6 +129,7 @@ namespace persistence
 
             using parser_type = JsonParser<unqualified_t<decltype(member_type().ref(ref))>>;
             context.emplace<parser_type>(context, member_type().ref(ref));
+            found = true;
             return true;
         }
 
@@ -117,6 +137,7 @@ namespace persistence
         using member_type = typename std::tuple_element<0, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view member_name = member_type().name();
         C& ref;
+        bool found = false;
     };
 
     template<typename C>
@@ -132,6 +153,15 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            PERSISTENCE_IF_UNLIKELY(is_required_member<first_member_type>::value && !first_found) {
+                context.fail("missing required property: " + std::string(first_member_name));
+                return false;
+            }
+            PERSISTENCE_IF_UNLIKELY(is_required_member<second_member_type>::value && !second_found) {
+                context.fail("missing required property: " + std::string(second_member_name));
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -142,10 +172,12 @@ namespace persistence
             if (identifier == first_member_name) {
                 using parser_type = JsonParser<unqualified_t<decltype(first_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, first_member_type().ref(ref));
+                first_found = true;
                 return true;
             } else if (identifier == second_member_name) {
                 using parser_type = JsonParser<unqualified_t<decltype(second_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, second_member_type().ref(ref));
+                second_found = true;
                 return true;
             } else {
                 context.fail("expected class member name; got: " + std::string(json_key.identifier));
@@ -159,6 +191,8 @@ namespace persistence
         using second_member_type = typename std::tuple_element<1, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view second_member_name = second_member_type().name();
         C& ref;
+        bool first_found = false;
+        bool second_found = false;
     };
 
     template<typename C>
@@ -174,6 +208,13 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            for (std::size_t k = 0; k < required.size(); ++k) {
+                PERSISTENCE_IF_UNLIKELY(required[k] && !found[k]) {
+                    context.fail("missing required property: " + std::string(names[k]));
+                    return false;
+                }
+            }
+
             context.pop();
             return true;
         }
@@ -191,6 +232,7 @@ namespace persistence
                 using parser_type = JsonParser<unqualified_t<decltype(member.ref(ref))>>;
                 context.emplace<parser_type>(context, member.ref(ref));
             });
+            found[k] = true;
             return true;
         }
 
@@ -202,10 +244,19 @@ namespace persistence
             }, typename class_traits<C>::member_types());
         }
 
+        constexpr static auto member_required()
+        {
+            return std::apply([](auto&&... args) {
+                return make_array(is_required_member<unqualified_t<decltype(args)>>::value...);
+            }, typename class_traits<C>::member_types());
+        }
+
         constexpr static auto members = typename class_traits<C>::member_types();
+        constexpr static auto required = member_required();
         inline static auto names = member_names();
         inline static auto hash_map = PerfectHash(names);
         C& ref;
+        std::bitset<class_traits<C>::member_count> found;
     };
 
     template<typename T>
-- 
2.43.0


From bd0c3f1b7ec0fc63b97803a2dae5ac12e20958ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 08/42] fix: Base64 encoder reads beyond the end of the input
 and at unaligned addresses

---
 include/persistence/base64.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..1efed10 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,8 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
 
 namespace persistence
 {
@@ -100,7 +102,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() >= 8 ? (input.size() - 2) / 6 : 0;  // each sextet is loaded with the 2 bytes that follow, which must be in addressable range
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +114,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));  // data may be unaligned
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From ef511800045c25fbca8b461e3180a144e9cc09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 09/42] fix: date and time formatting uses a shared buffer and
 is not safe to call from multiple threads

---
 include/persistence/datetime.hpp | 38 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..003e660 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline bool posix_to_utc(std::time_t time, std::tm* cal) {
+            return gmtime_s(cal, &time) == 0;
+        }
     }
 }
 #else
@@ -27,6 +34,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline bool posix_to_utc(std::time_t time, std::tm* cal) {
+            return gmtime_r(&time, cal) != nullptr;
+        }
     }
 }
 #endif
@@ -250,10 +264,11 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -274,13 +289,14 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 324726b8c81f0fc904e1e45f36912503df8fa3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:21 +0000
Subject: [PATCH 10/42] fix: dates and times outside of the range of the system
 clock are altered instead of preserved or rejected

---
 include/persistence/datetime.hpp         | 112 ++++++++++++++++++-----
 include/persistence/deserialize_date.hpp |   6 +-
 include/persistence/parse_date.hpp       |   6 +-
 include/persistence/serialize_date.hpp   |   5 +-
 include/persistence/write_date.hpp       |   5 +-
 5 files changed, 103 insertions(+), 31 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 003e660..227e62e 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -49,20 +49,49 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Converts a Gregorian calendar date and UTC time into a POSIX timestamp (seconds since epoch).
+         */
+        inline std::time_t make_posix_time(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+
+        /**
+         * Converts a POSIX timestamp into a chrono time point if it is in the representable range.
+         */
+        inline bool from_posix_time(std::time_t t, timestamp& value)
+        {
+            using std::chrono::duration_cast;
+            using std::chrono::seconds;
+
+            PERSISTENCE_IF_UNLIKELY(
+                t < duration_cast<seconds>(timestamp::duration::min()).count() ||
+                t > duration_cast<seconds>(timestamp::duration::max()).count()
+            ) {
+                return false;
+            }
+
+            value = std::chrono::system_clock::from_time_t(t);
+            return true;
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
-        return std::chrono::system_clock::from_time_t(t);
+        return std::chrono::system_clock::from_time_t(detail::make_posix_time(year, month, day, hour, minute, second));
     }
 
     inline constexpr bool is_leap_year(unsigned year)
@@ -113,9 +142,9 @@ namespace persistence
     }
 
     /**
-     * Parses a chrono time point from an ISO 8601 date string.
+     * Parses a Gregorian calendar date from an ISO 8601 date string.
      */
-    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    inline bool parse_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
     {
         PERSISTENCE_IF_UNLIKELY(len != 10) {
             return false;
@@ -126,7 +155,6 @@ namespace persistence
         }
 
         using detail::from_digits;
-        unsigned year, month, day;
         PERSISTENCE_IF_UNLIKELY(
             !from_digits(text, text + 4, year) ||
             !from_digits(text + 5, text + 7, month) ||
@@ -139,10 +167,22 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
         return true;
     }
 
+    /**
+     * Parses a chrono time point from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {
+            return false;
+        }
+
+        return detail::from_posix_time(detail::make_posix_time(year, month, day, 0, 0, 0), value);
+    }
+
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
      */
@@ -180,8 +220,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return detail::from_posix_time(detail::make_posix_time(year, month, day, hour, minute, second), value);
     }
 
     namespace detail
@@ -255,6 +294,40 @@ namespace persistence
         constexpr static std::size_t length() { return 20; }
     };
 
+    /**
+     * Converts a Gregorian calendar date to an ISO 8601 date string.
+     */
+    inline iso_date to_iso_date(int year, int month, int day)
+    {
+        iso_date dt;
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), month);
+        to_aligned_digits<2>(dt.day(), day);
+
+        return dt;
+    }
+
+#if __cplusplus >= 202002L
+    /**
+     * Converts a calendar date to an ISO 8601 date string.
+     *
+     * @return True if the year is in the range that can be represented with 4 digits.
+     */
+    inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
+    {
+        // normalize day of month
+        std::chrono::year_month_day ymd = std::chrono::sys_days(value);
+        int year = static_cast<int>(ymd.year());
+        PERSISTENCE_IF_UNLIKELY(year < 0 || year > 9999) {
+            return false;
+        }
+
+        dt = to_iso_date(year, static_cast<int>(static_cast<unsigned>(ymd.month())), static_cast<int>(static_cast<unsigned>(ymd.day())));
+        return true;
+    }
+#endif
+
     /**
      * Converts a chrono time point to an ISO 8601 date string.
      */
@@ -270,14 +343,7 @@ namespace persistence
         int month = calendar_time.tm_mon + 1;
         int day = calendar_time.tm_mday;
 
-        // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
-        iso_date dt;
-        using detail::to_aligned_digits;
-        to_aligned_digits<4>(dt.year(), year);
-        to_aligned_digits<2>(dt.month(), month);
-        to_aligned_digits<2>(dt.day(), day);
-
-        return dt;
+        return to_iso_date(year, month, day);
     }
 
     /**
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..61c00be 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,8 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), year, month, day)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +33,7 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
+            value = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..90a5a38 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,13 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), year, month, day)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
+            ref = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..c803174 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -15,7 +15,10 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            if (!to_iso_date(value, dt)) {
+                return false;
+            }
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..45b4fdd 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -12,7 +12,10 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            if (!to_iso_date(value, dt)) {
+                return false;
+            }
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From 134ed48ac4d4c1cef8a5dbdb69806e7b066d7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 11/42] fix: floating-point numbers are not restored exactly
 when read from text

---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 3 ++-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..6df1b00 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..bc82925 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -15,9 +15,10 @@ namespace persistence
             rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
 
+            // pass flag `kParseFullPrecisionFlag` to restore floating-point numbers exactly as written
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
         }
     }
 
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..5547de6 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 }
-- 
2.43.0


From 9b14f4482f6c606da814b17bd106127abeffdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 12/42] fix: document created from a temporary string refers to
 destroyed string data

---
 include/persistence/utility.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 5547de6..aeb148a 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -34,8 +34,7 @@ namespace persistence
      */
     inline rapidjson::Document string_to_document(std::string&& str)
     {
-        rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
-        return doc;
+        // in-situ parsing is not applicable, the document returned must not refer to the buffer of the temporary
+        return string_to_document(static_cast<const std::string&>(str));
     }
 }
-- 
2.43.0


From 0648bae56b63f36033752f5a675f8c3dfd785b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 13/42] fix: extra data that follows a null character is
 accepted after a JSON document

---
 include/persistence/deserialize.hpp | 50 ++++++++++++++++++++++++-----
 include/persistence/parse.hpp       |  7 +++-
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 6df1b00..a32b46f 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -58,6 +58,36 @@ namespace persistence
         return obj;
     }
 
+    namespace detail
+    {
+        /** Parses a JSON string into a JSON DOM document. */
+        template<unsigned ParseFlags, typename Stream>
+        rapidjson::ParseResult parse_document(rapidjson::Document& doc, Stream& stream, std::size_t size)
+        {
+            doc.ParseStream<ParseFlags | rapidjson::kParseFullPrecisionFlag>(stream);
+            if (doc.HasParseError()) {
+                return rapidjson::ParseResult(doc.GetParseError(), doc.GetErrorOffset());
+            }
+            if (stream.Tell() != size) {
+                // null character followed by extra data
+                return rapidjson::ParseResult(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
+            }
+            return rapidjson::ParseResult();
+        }
+
+        inline rapidjson::ParseResult parse_document(rapidjson::Document& doc, const std::string& str)
+        {
+            rapidjson::StringStream stream(str.data());
+            return parse_document<rapidjson::kParseDefaultFlags>(doc, stream, str.size());
+        }
+
+        inline rapidjson::ParseResult parse_document(rapidjson::Document& doc, std::string&& str)
+        {
+            rapidjson::InsituStringStream stream(str.data());
+            return parse_document<rapidjson::kParseInsituFlag>(doc, stream, str.size());
+        }
+    }
+
     /**
      * Deserializes a C++ object from a JSON string via JSON DOM.
      *
@@ -70,9 +100,8 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        auto result = detail::parse_document(doc, str);
+        return !result.IsError() && deserialize(doc, obj);
     }
 
     /**
@@ -87,9 +116,8 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        auto result = detail::parse_document(doc, std::move(str));
+        return !result.IsError() && deserialize(doc, obj);
     }
 
     /**
@@ -101,7 +129,10 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        auto result = detail::parse_document(doc, str);
+        if (result.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(result.Code()), result.Offset());
+        }
         return deserialize<T>(doc);
     }
 
@@ -114,7 +145,10 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseInsituFlag | rapidjson::kParseFullPrecisionFlag>(str.data());
+        auto result = detail::parse_document(doc, std::move(str));
+        if (result.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(result.Code()), result.Offset());
+        }
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index bc82925..33f37b9 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -18,7 +18,12 @@ namespace persistence
             // pass flag `kParseFullPrecisionFlag` to restore floating-point numbers exactly as written
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            auto result = reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            if (!result.IsError() && stream.Tell() != str.size()) {
+                // null character followed by extra data
+                return rapidjson::ParseResult(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
+            }
+            return result;
         }
     }
 
-- 
2.43.0


From 8e40890080af1e126d7b0a536d227b4c595826ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 14/42] fix: deserializer silently alters numbers that do not
 fit in the floating-point type

---
 .../persistence/deserialize_fundamental.hpp   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..55b48f9 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,6 +291,25 @@ namespace persistence
                 }
             }
 
+            bool assignable;
+            if (json.IsInt64()) {
+                assignable = is_assignable<T>(json.GetInt64());
+            } else if (json.IsUint64()) {
+                assignable = is_assignable<T>(json.GetUint64());
+            } else {
+                assignable = is_assignable<T>(json.GetDouble());
+            }
+            PERSISTENCE_IF_UNLIKELY(!assignable) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "number cannot be assigned without data loss",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
             value = static_cast<T>(json.GetDouble());
             return true;
         }
-- 
2.43.0


From 93c27c0692e43504cffed4d1ccb2ed372e78c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:05 +0000
Subject: [PATCH 15/42] fix: deserializer truncates dictionary keys at embedded
 null characters

---
 include/persistence/deserialize_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..2ee99d5 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -23,11 +23,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view key(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(key));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(key)] = std::move(item);
             }
             return true;
         }
-- 
2.43.0


From 994121ff99eec8c76042635e7e7baa1af317edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 16/42] fix: JSON Pointers in back-references and error
 messages are not escaped and mistake empty keys for an index

---
 include/persistence/deserialize_object.hpp |  6 +++---
 include/persistence/detail/path.hpp        | 11 ++++++++++-
 include/persistence/detail/segment.hpp     |  7 ++++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index af63f87..ab871c4 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,7 +37,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 T value;
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
@@ -53,7 +53,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
@@ -76,7 +76,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..1234756 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,7 +24,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape characters that have a special meaning in a JSON Pointer
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..3f300f0 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From b688c7d49879b00e7d5df2b7bf73977f39e01730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 17/42] fix: back-references to elements of a set have the
 wrong path

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 9809c1dcb758df3c4f68b1cb93e80d44d930a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 18/42] fix: back-reference resolves to object read for a
 discarded variant alternative

---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From 11ad6123bb445335dc4963f6f37965e9616f1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 19/42] fix: writing and serializing null pointers crashes
 instead of failing

---
 include/persistence/serialize_pointer.hpp | 8 ++++++++
 include/persistence/write_pointer.hpp     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/persistence/serialize_pointer.hpp b/include/persistence/serialize_pointer.hpp
index 38355aa..98b6b38 100644
--- a/include/persistence/serialize_pointer.hpp
+++ b/include/persistence/serialize_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, json, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
diff --git a/include/persistence/write_pointer.hpp b/include/persistence/write_pointer.hpp
index ba417a6..5adf6ec 100644
--- a/include/persistence/write_pointer.hpp
+++ b/include/persistence/write_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, writer, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
-- 
2.43.0


From 533c37e9dc280bac90425310ae54f1231daad42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:34 +0000
Subject: [PATCH 20/42] fix: polymorphic stack destroys an object whose
 constructor has thrown an exception

---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..786e825 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,13 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
+                // register object only when it has been successfully constructed
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From 8cd90ee7cc3132a652886ddd53437a4c72a87c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 21/42] fix: polymorphic stack misplaces objects with extended
 alignment or base class at non-zero offset

---
 .../persistence/detail/polymorphic_stack.hpp  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 786e825..01afa08 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "unlikely.hpp"
 #include <cstddef>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 
@@ -23,18 +24,20 @@ namespace persistence
             {
                 static_assert(std::is_base_of<Base, Class>::value, "newly constructed class must derive from base class");
 
-                PERSISTENCE_IF_UNLIKELY(count >= Capacity || (next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))) {
+                // ensure proper alignment for newly constructed object
+                void* address = next;
+                std::size_t space = static_cast<std::size_t>(memory + MemorySize - next);
+                PERSISTENCE_IF_UNLIKELY(count >= Capacity || !std::align(alignof(Class), sizeof(Class), address, space)) {
                     throw std::out_of_range("stack space exhausted");
                 }
 
-                // ensure proper alignment for newly constructed object
-                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                Class* object = new (address) Class(std::forward<T>(args)...);
 
                 // register object only when it has been successfully constructed
                 items[count] = current;
                 ++count;
                 current = object;
-                next = current + sizeof(Class);
+                next = reinterpret_cast<std::byte*>(object) + sizeof(Class);
 
                 return back();
             }
@@ -50,7 +53,7 @@ namespace persistence
 
             Base& back()
             {
-                return *reinterpret_cast<Base*>(current);
+                return *current;
             }
 
             ~PolymorphicStack()
@@ -64,17 +67,17 @@ namespace persistence
             void pop_unsafe()
             {
                 --count;
-                reinterpret_cast<Base*>(current)->~Base();
-                next = current;
+                current->~Base();
+                next = reinterpret_cast<std::byte*>(current);
                 current = items[count];
                 items[count] = nullptr;
             }
 
         private:
             std::byte memory[MemorySize];
-            std::byte* current = nullptr;
+            Base* current = nullptr;
             std::byte* next = memory;
-            std::byte* items[Capacity] = { nullptr };
+            Base* items[Capacity] = { nullptr };
             std::size_t count = 0;
         };
     }
-- 
2.43.0


From b512db792144ed131ea3b6e28607c497bf01756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 22/42] fix: parser forms reference to non-existent element
 when handler stack becomes empty

---
 include/persistence/detail/polymorphic_stack.hpp | 5 +++++
 include/persistence/parse_base.hpp               | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 01afa08..a93fc84 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -51,6 +51,11 @@ namespace persistence
                 pop_unsafe();
             }
 
+            bool empty() const
+            {
+                return count == 0;
+            }
+
             Base& back()
             {
                 return *current;
diff --git a/include/persistence/parse_base.hpp b/include/persistence/parse_base.hpp
index 1d4c39f..f54d757 100644
--- a/include/persistence/parse_base.hpp
+++ b/include/persistence/parse_base.hpp
@@ -26,7 +26,7 @@ namespace persistence
         void pop()
         {
             stack.pop();
-            dispatcher.handler = &stack.back();
+            dispatcher.handler = stack.empty() ? nullptr : &stack.back();
         }
 
         template<typename C, typename... T>
-- 
2.43.0


From 3d070833bb2b15e0293151a2ac71a879364713e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 23/42] fix: parser throws unrelated exception when JSON is
 nested too deep

---
 include/persistence/detail/polymorphic_stack.hpp | 10 +++++++++-
 include/persistence/parse.hpp                    |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index a93fc84..9fa19ce 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -9,6 +9,14 @@ namespace persistence
 {
     namespace detail
     {
+        /** Raised when there is no more space on the stack. */
+        struct StackExhaustedError : std::out_of_range
+        {
+            StackExhaustedError()
+                : std::out_of_range("stack space exhausted")
+            {}
+        };
+
         /**
          * A stack for storing polymorphic objects deriving from a common base class.
          *
@@ -28,7 +36,7 @@ namespace persistence
                 void* address = next;
                 std::size_t space = static_cast<std::size_t>(memory + MemorySize - next);
                 PERSISTENCE_IF_UNLIKELY(count >= Capacity || !std::align(alignof(Class), sizeof(Class), address, space)) {
-                    throw std::out_of_range("stack space exhausted");
+                    throw StackExhaustedError();
                 }
 
                 Class* object = new (address) Class(std::forward<T>(args)...);
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 33f37b9..ded4281 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -18,7 +18,13 @@ namespace persistence
             // pass flag `kParseFullPrecisionFlag` to restore floating-point numbers exactly as written
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            auto result = reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            rapidjson::ParseResult result;
+            try {
+                result = reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            } catch (const StackExhaustedError&) {
+                context.fail("maximum nesting level exceeded");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
             if (!result.IsError() && stream.Tell() != str.size()) {
                 // null character followed by extra data
                 return rapidjson::ParseResult(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
-- 
2.43.0


From f74ed1983340bbbfbdc534fc7fd2afe5e3bca2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 24/42] fix: parser cannot recognize object members before its
 static variables are initialized

---
 include/persistence/parse_object.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 20fb455..49a7e65 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -222,7 +222,7 @@ namespace persistence
         bool parse(const JsonObjectKey& json_key) override
         {
             std::string_view identifier = json_key.identifier;
-            std::size_t k = hash_map.index(identifier);
+            std::size_t k = hash_map().index(identifier);
             PERSISTENCE_IF_UNLIKELY(names[k] != identifier) {
                 context.fail("expected class member name; got: " + std::string(json_key.identifier));
                 return false;
@@ -253,8 +253,15 @@ namespace persistence
 
         constexpr static auto members = typename class_traits<C>::member_types();
         constexpr static auto required = member_required();
-        inline static auto names = member_names();
-        inline static auto hash_map = PerfectHash(names);
+        constexpr static auto names = member_names();
+
+        /** Lookup table for member names, available even while static variables are being initialized. */
+        static const auto& hash_map()
+        {
+            static const auto map = PerfectHash(names);
+            return map;
+        }
+
         C& ref;
         std::bitset<class_traits<C>::member_count> found;
     };
-- 
2.43.0


From a60b559ad7263847c1b859ae520f3bf30b120609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 25/42] fix: enumeration string with embedded null character is
 mistaken for a shorter enumeration name

---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 0d68fce53b788fa520d9c28886b3bf2989ba952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 26/42] fix: shared pointers to different objects at the same
 address are written as the same object

---
 include/persistence/detail/output_context.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..fcb665e 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,14 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        /** Maps an object of a specific type to its path (sub-objects may share the address of the enclosing object). */
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +26,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get(std::make_pair(std::shared_ptr<void>(pointer), std::type_index(typeid(T))));
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put(std::make_pair(std::shared_ptr<void>(pointer), std::type_index(typeid(T))), segments());
         }
 
         GlobalContext& global()
-- 
2.43.0


From cfb94706f009c8d42f75f895ac45dda261089f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 27/42] fix: invalid back-references crash, are silently
 ignored or produce an object of the wrong type

---
 include/persistence/deserialize_pointer.hpp   | 40 ++++++++++++++-----
 .../detail/deserialize_context.hpp            | 16 +++++---
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..1d8a731 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
 #include <memory>
@@ -40,18 +42,19 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
-                        return false;
+                    auto ref = find_reference(it->value);
+                    PERSISTENCE_IF_UNLIKELY(!ref) {
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "invalid back-reference",
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
-                    auto ref = context.get(object);
-                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
-                    }
-
-                    pointer = std::reinterpret_pointer_cast<T>(ref.value());
+                    pointer = std::move(ref);
                     return true;
                 }
             }
@@ -64,5 +67,22 @@ namespace persistence
             context.put(&json, pointer);
             return true;
         }
+
+    private:
+        /** Finds the object of the appropriate type that a back-reference identifies. */
+        std::shared_ptr<T> find_reference(const rapidjson::Value& ref) const
+        {
+            if (!ref.IsString()) {
+                return nullptr;
+            }
+
+            rapidjson::Pointer path(ref.GetString(), ref.GetStringLength());
+            const rapidjson::Value* object = path.Get(context.document());
+            if (!object) {
+                return nullptr;
+            }
+
+            return context.get<T>(object);
+        }
     };
 }
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..7739c8d 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,8 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
 
 namespace persistence
 {
@@ -10,7 +12,7 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +28,18 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
+        /** Returns the object of the given type that has been read from a JSON value. */
+        template<typename T>
+        std::shared_ptr<T> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            auto object = global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
+            return object ? std::static_pointer_cast<T>(*object) : nullptr;
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        template<typename T>
+        void put(const rapidjson::Value* pointer, const std::shared_ptr<T>& object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From 99c0f71f4618e1eb8b51b1c0b11bd301d607808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 28/42] fix: back-references may resolve to objects read for a
 discarded variant alternative

---
 include/persistence/deserialize_variant.hpp   |  3 ++
 .../detail/deserialize_context.hpp            | 12 ++++++++
 include/persistence/detail/references.hpp     | 29 +++++++++++++++++--
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_variant.hpp b/include/persistence/deserialize_variant.hpp
index 485e60c..2c7113a 100644
--- a/include/persistence/deserialize_variant.hpp
+++ b/include/persistence/deserialize_variant.hpp
@@ -33,7 +33,10 @@ namespace persistence
         bool deserialize_variant(const rapidjson::Value& json, std::variant<Ts...>& value) const
         {
             T var;
+            auto checkpoint = context.checkpoint();
             if (!deserialize<false>(json, var, context)) {
+                // objects read for a discarded alternative cannot be the target of a back-reference
+                context.rollback(checkpoint);
                 return false;
             }
 
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 7739c8d..f1a41d6 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -42,6 +42,18 @@ namespace persistence
             global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
+        /** Identifies the objects that have been read so far. */
+        std::size_t checkpoint() const
+        {
+            return global.references.checkpoint();
+        }
+
+        /** Forgets objects that have been read since the checkpoint. */
+        void rollback(std::size_t checkpoint)
+        {
+            global.references.rollback(checkpoint);
+        }
+
         rapidjson::Document& document()
         {
             return global.document();
diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 54c6d3f..d958f03 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <map>
 #include <optional>
+#include <vector>
 
 namespace persistence
 {
@@ -19,15 +20,39 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert_or_assign(key, value);
+            auto&& [it, inserted] = references.insert_or_assign(key, value);
+            if (inserted) {
+                log.push_back(it);
+            }
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert_or_assign(std::move(key), std::move(value));
+            auto&& [it, inserted] = references.insert_or_assign(std::move(key), std::move(value));
+            if (inserted) {
+                log.push_back(it);
+            }
+        }
+
+        /** Identifies the current state of the table. */
+        std::size_t checkpoint() const
+        {
+            return log.size();
+        }
+
+        /** Removes all references that have been added since the checkpoint. */
+        void rollback(std::size_t checkpoint)
+        {
+            while (log.size() > checkpoint) {
+                references.erase(log.back());
+                log.pop_back();
+            }
         }
 
     private:
         std::map<K, V> references;
+
+        /** References in the order in which they were added. */
+        std::vector<typename std::map<K, V>::iterator> log;
     };
 }
-- 
2.43.0


From 29e256acf9e33724924dbd5ab3712b4667dea1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 29/42] fix: JSON schema of enumerations rejects all
 enumeration values

---
 include/persistence/schema.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..3d28377 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,6 +7,9 @@
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+#include <boost/describe/enumerators.hpp>
+#endif
 
 namespace persistence
 {
@@ -157,11 +160,11 @@ namespace persistence
         {}
 
         std::string_view type;
-        std::variant<
+        std::optional<std::variant<
             std::vector<long long>,
             std::vector<unsigned long long>,
             std::vector<std::string>
-        > enum_values;
+        >> enum_values;
 
         template <typename Archive>
         constexpr auto persist(Archive& ar)
@@ -325,17 +328,27 @@ namespace persistence
     };
 #endif
 
+    /** True if the enumeration type is written as a string. */
+    template<typename T>
+    constexpr bool is_string_enum()
+    {
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+        if constexpr (::boost::describe::has_describe_enumerators<T>::value) {
+            return true;
+        }
+#endif
+        return detect<T, enum_to_string_function>::value;
+    }
+
     template<typename T>
     struct JsonSchema<T, std::enable_if_t<std::is_enum_v<T>>>
     {
         static auto type()
         {
-            if constexpr (detect<T, enum_to_string_function>::value) {
+            if constexpr (is_string_enum<T>()) {
                 return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
             } else {
-                return JsonSchemaEnumType("object");
+                return JsonSchema<std::underlying_type_t<T>>::type();
             }
         }
     };
-- 
2.43.0


From 4d2bf7c52db0fe7f44dbb7a21338749478cff30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 30/42] fix: generating JSON schema for recursive types never
 terminates

---
 include/persistence/schema.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 3d28377..10d6437 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -5,6 +5,7 @@
 #include "dictionary.hpp"
 #include "object.hpp"
 #include "detail/defer.hpp"
+#include "detail/pointer_traits.hpp"
 #include "detail/traits.hpp"
 #include <set>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
@@ -404,17 +405,19 @@ namespace persistence
     {
         if constexpr (is_schema_traversable_v<T>) {
             // save sub-schema in context
-            context.definitions.insert(
-                std::make_pair(
-                    std::string_view(typeid(T).name()),
-                    JsonSchema<T>::type(context)
-                )
-            );
+            std::string_view name(typeid(T).name());
+            if (context.definitions.find(name) == context.definitions.end()) {
+                // reserve name to prevent infinite recursion when the type refers to itself
+                context.definitions.insert_or_assign(name, JsonSchemaReferenceType());
+                context.definitions.insert_or_assign(name, JsonSchema<T>::type(context));
+            }
 
             // use alias to refer to sub-schema
             return JsonSchemaReferenceType(
                 "#/definitions/" + std::string(typeid(T).name())
             );
+        } else if constexpr (is_smart_pointer<T>::value) {
+            return make_schema<typename T::element_type>(context);
         } else if constexpr (is_context_aware_schema_v<T>) {
             return JsonSchema<T>::type(context);
         } else {
-- 
2.43.0


From fa9afad177a2f588e62475db4aa674c4d8cda93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 31/42] fix: JSON schema cannot be generated for classes with
 default member initializers

---
 include/persistence/schema.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 10d6437..8604bde 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -461,6 +461,16 @@ namespace persistence
             return *this;
         }
 
+        template<typename T, class B, auto P, typename D>
+        JsonSchemaVisitor& operator&(const member::variable_default<T, B, P, D>& member)
+        {
+            static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
+            properties.push_back(
+                std::make_pair(member.name(), make_schema_ptr<T>(context))
+            );
+            return *this;
+        }
+
         JsonSchemaContext& context;
         JsonSchemaObjectProperties& properties;
         JsonSchemaObjectRequired& required;
-- 
2.43.0


From 8b8c5dacac2a6679a8dc1aa841b679a987eeeeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:04 +0000
Subject: [PATCH 32/42] fix: arrays of move-only types cannot be deserialized

---
 include/persistence/deserialize_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_array.hpp b/include/persistence/deserialize_array.hpp
index 26cc181..bdbda99 100644
--- a/include/persistence/deserialize_array.hpp
+++ b/include/persistence/deserialize_array.hpp
@@ -30,7 +30,7 @@ namespace persistence
                 PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(*it, item, item_context)) {
                     return false;
                 }
-                *out = item;
+                *out = std::move(item);
             }
             container = std::move(output);
             return true;
-- 
2.43.0


From f01a3170e6464e9f63d7c4cdf9a923c1e60d1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:59 +0000
Subject: [PATCH 33/42] fix: parsing floating-point numbers reads past the end
 of a string view

---
 include/persistence/number.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/persistence/number.hpp b/include/persistence/number.hpp
index d3fd074..8092519 100644
--- a/include/persistence/number.hpp
+++ b/include/persistence/number.hpp
@@ -2,7 +2,9 @@
 #include "detail/defer.hpp"
 #include <charconv>
 #include <cstdlib>
+#include <string>
 #include <string_view>
+#include <type_traits>
 
 namespace persistence
 {
@@ -15,6 +17,16 @@ namespace persistence
             auto result = std::from_chars(str.data(), last, value);
             return result.ec == std::errc() && result.ptr == last;
         }
+
+        template<typename T>
+        bool parse_from_null_terminated(const std::string_view& str, T& value, T (*convert)(const char*, char**))
+        {
+            // view might not be null-terminated
+            const std::string literal(str);
+            char* last;
+            value = convert(literal.c_str(), &last);
+            return last != literal.c_str() && last == literal.c_str() + literal.size();
+        }
     }
 
     template<typename T, typename Enable = void>
@@ -47,9 +59,7 @@ namespace persistence
     {
         bool parse(const std::string_view& str, float& value)
         {
-            char* last;
-            value = std::strtof(str.data(), &last);
-            return last == str.data() + str.size();
+            return detail::parse_from_null_terminated(str, value, std::strtof);
         }
     };
 
@@ -58,9 +68,7 @@ namespace persistence
     {
         bool parse(const std::string_view& str, double& value)
         {
-            char* last;
-            value = std::strtod(str.data(), &last);
-            return last == str.data() + str.size();
+            return detail::parse_from_null_terminated(str, value, std::strtod);
         }
     };
 
@@ -69,9 +77,7 @@ namespace persistence
     {
         bool parse(const std::string_view& str, long double& value)
         {
-            char* last;
-            value = std::strtold(str.data(), &last);
-            return last == str.data() + str.size();
+            return detail::parse_from_null_terminated(str, value, std::strtold);
         }
     };
 #endif
-- 
2.43.0


From 1d1ca211e187a266f69c19b50a5b3d9b63d57b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:23 +0000
Subject: [PATCH 34/42] fix: string_to_document ignores text that follows a
 null character

---
 include/persistence/utility.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index aeb148a..fdb79a3 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -4,6 +4,7 @@
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
+#include <algorithm>
 #include <string>
 
 namespace persistence
@@ -25,6 +26,13 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
+        if (str.find('\0') != std::string::npos) {
+            // a null character is invalid anywhere in JSON but would be taken for the end of the string
+            std::string copy(str);
+            std::replace(copy.begin(), copy.end(), '\0', '\x01');
+            doc.Parse<rapidjson::kParseFullPrecisionFlag>(copy.data());
+            return doc;
+        }
         doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
-- 
2.43.0


From 4232f404074cc4b72f34cb91745ef9ab51deb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 35/42] fix: numbers close to the limits of a double are
 misread or cause out-of-bounds access in RapidJSON

---
 include/persistence/deserialize.hpp         |  12 ++-
 include/persistence/detail/exact_number.hpp | 112 ++++++++++++++++++++
 include/persistence/parse.hpp               |   8 +-
 include/persistence/utility.hpp             |  25 +++--
 4 files changed, 140 insertions(+), 17 deletions(-)
 create mode 100644 include/persistence/detail/exact_number.hpp

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index a32b46f..fb15ecf 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/exact_number.hpp"
 #include "detail/traits.hpp"
 #include <rapidjson/error/en.h>
 
@@ -64,9 +65,14 @@ namespace persistence
         template<unsigned ParseFlags, typename Stream>
         rapidjson::ParseResult parse_document(rapidjson::Document& doc, Stream& stream, std::size_t size)
         {
-            doc.ParseStream<ParseFlags | rapidjson::kParseFullPrecisionFlag>(stream);
-            if (doc.HasParseError()) {
-                return rapidjson::ParseResult(doc.GetParseError(), doc.GetErrorOffset());
+            rapidjson::ParseResult result;
+            auto generator = [&](rapidjson::Document& handler) {
+                result = parse_exact<ParseFlags>(stream, handler);
+                return !result.IsError();
+            };
+            doc.Populate(generator);
+            if (result.IsError()) {
+                return result;
             }
             if (stream.Tell() != size) {
                 // null character followed by extra data
diff --git a/include/persistence/detail/exact_number.hpp b/include/persistence/detail/exact_number.hpp
new file mode 100644
index 0000000..d6c6339
--- /dev/null
+++ b/include/persistence/detail/exact_number.hpp
@@ -0,0 +1,112 @@
+#pragma once
+#include "config.hpp"
+#include <charconv>
+#include <cmath>
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
+#include <string>
+#include <string_view>
+#include <rapidjson/reader.h>
+
+namespace persistence
+{
+    namespace detail
+    {
+        /** True if a non-zero decimal literal is less than one in magnitude. */
+        inline bool is_small_literal(std::string_view literal)
+        {
+            auto exponent_pos = literal.find_first_of("eE");
+            auto significand = literal.substr(0, exponent_pos);
+            long long exponent = 0;
+            if (exponent_pos != std::string_view::npos) {
+                auto text = literal.substr(exponent_pos + 1);
+                bool negative = text.front() == '-';
+                for (char c : text.substr(text.front() < '0' ? 1 : 0)) {
+                    exponent = exponent < 1000000000000 ? 10 * exponent + (c - '0') : exponent;
+                }
+                exponent = negative ? -exponent : exponent;
+            }
+
+            auto digit = significand.find_first_of("123456789");
+            auto point = significand.find('.');
+            point = point != std::string_view::npos ? point : significand.size();
+            return exponent + static_cast<long long>(point) - static_cast<long long>(digit) - (digit < point ? 1 : 0) < 0;
+        }
+
+        /** Converts a decimal literal to the nearest floating-point number. */
+        inline bool to_nearest_double(std::string_view literal, double& value)
+        {
+#if defined(__cpp_lib_to_chars)
+            auto result = std::from_chars(literal.data(), literal.data() + literal.size(), value);
+            if (result.ec == std::errc::result_out_of_range && is_small_literal(literal)) {
+                value = literal.front() == '-' ? -0.0 : 0.0;
+                return true;
+            }
+            return result.ec == std::errc() && std::isfinite(value);
+#else
+            value = std::strtod(std::string(literal).c_str(), nullptr);
+            return std::isfinite(value);
+#endif
+        }
+
+        /**
+         * Forwards parse events, converting numbers exactly.
+         *
+         * RapidJSON is inexact unless `kParseFullPrecisionFlag` is passed, in which case it produces wrong values and makes
+         * out-of-bounds accesses for literals with a zero significand or with a magnitude close to the limits of the type.
+         */
+        template<typename Handler>
+        struct ExactNumberHandler
+        {
+            using Ch = char;
+
+            Handler& handler;
+
+            bool Null() { return handler.Null(); }
+            bool Bool(bool b) { return handler.Bool(b); }
+            bool Int(int i) { return handler.Int(i); }
+            bool Uint(unsigned i) { return handler.Uint(i); }
+            bool Int64(std::int64_t i) { return handler.Int64(i); }
+            bool Uint64(std::uint64_t i) { return handler.Uint64(i); }
+            bool Double(double d) { return handler.Double(d); }
+            bool String(const char* str, rapidjson::SizeType length, bool copy) { return handler.String(str, length, copy); }
+            bool StartObject() { return handler.StartObject(); }
+            bool Key(const char* str, rapidjson::SizeType length, bool copy) { return handler.Key(str, length, copy); }
+            bool EndObject(rapidjson::SizeType count) { return handler.EndObject(count); }
+            bool StartArray() { return handler.StartArray(); }
+            bool EndArray(rapidjson::SizeType count) { return handler.EndArray(count); }
+
+            bool RawNumber(const char* str, rapidjson::SizeType length, bool)
+            {
+                std::string_view literal(str, length);
+                const char* last = str + length;
+                if (literal.find_first_of(".eE") == std::string_view::npos) {
+                    if (literal.front() == '-') {
+                        std::int64_t i;
+                        if (std::from_chars(str, last, i).ec == std::errc()) {
+                            return i >= std::numeric_limits<int>::min() ? handler.Int(static_cast<int>(i)) : handler.Int64(i);
+                        }
+                    } else {
+                        std::uint64_t i;
+                        if (std::from_chars(str, last, i).ec == std::errc()) {
+                            return i <= std::numeric_limits<unsigned>::max() ? handler.Uint(static_cast<unsigned>(i)) : handler.Uint64(i);
+                        }
+                    }
+                }
+
+                double d;
+                return to_nearest_double(literal, d) && handler.Double(d);
+            }
+        };
+
+        /** Parses a JSON string, emitting events with exact numbers. */
+        template<unsigned ParseFlags, typename Stream, typename Handler>
+        rapidjson::ParseResult parse_exact(Stream& stream, Handler& handler)
+        {
+            rapidjson::Reader reader;
+            ExactNumberHandler<Handler> exact{handler};
+            return reader.Parse<ParseFlags | rapidjson::kParseNumbersAsStringsFlag>(stream, exact);
+        }
+    }
+}
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index ded4281..39a2b1f 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "parse_base.hpp"
 #include "exception.hpp"
+#include "detail/exact_number.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
 
@@ -12,15 +13,10 @@ namespace persistence
         rapidjson::ParseResult parse(ReaderContext& context, const std::string& str, T& value)
         {
             context.emplace<JsonParser<T>>(context, value);
-            rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
-
-            // pass flag `kParseFullPrecisionFlag` to restore floating-point numbers exactly as written
-            // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
-            // rapidjson from parsing numbers and emitting type-specific events
             rapidjson::ParseResult result;
             try {
-                result = reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                result = parse_exact<rapidjson::kParseDefaultFlags>(stream, context.dispatcher);
             } catch (const StackExhaustedError&) {
                 context.fail("maximum nesting level exceeded");
                 return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fdb79a3..9c02797 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -1,10 +1,10 @@
 #pragma once
 #include "detail/config.hpp"
+#include "detail/exact_number.hpp"
 #include "detail/pointer_traits.hpp"
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
-#include <algorithm>
 #include <string>
 
 namespace persistence
@@ -26,14 +26,23 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        if (str.find('\0') != std::string::npos) {
-            // a null character is invalid anywhere in JSON but would be taken for the end of the string
-            std::string copy(str);
-            std::replace(copy.begin(), copy.end(), '\0', '\x01');
-            doc.Parse<rapidjson::kParseFullPrecisionFlag>(copy.data());
-            return doc;
+        rapidjson::StringStream stream(str.data());
+        rapidjson::ParseResult result;
+        auto generator = [&](rapidjson::Document& handler) {
+            result = detail::parse_exact<rapidjson::kParseDefaultFlags>(stream, handler);
+            return !result.IsError();
+        };
+        doc.Populate(generator);
+        if (result.IsError() || stream.Tell() != str.size()) {
+            // make the document have an error code
+            doc.Parse(str.data());
+            if (!doc.HasParseError()) {
+                // number out of range, or null character followed by extra data
+                std::string invalid(str, 0, result.IsError() ? result.Offset() : stream.Tell());
+                invalid.push_back('\x01');
+                doc.Parse(invalid.data());
+            }
         }
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
-- 
2.43.0


From 24fe62a4398e1cc15d87301174d29bae89be7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:03 +0000
Subject: [PATCH 36/42] fix: back-reference through a member name with an
 embedded null character resolves to another object

---
 include/persistence/deserialize_pointer.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index 1d8a731..6d3deec 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -77,11 +77,27 @@ namespace persistence
             }
 
             rapidjson::Pointer path(ref.GetString(), ref.GetStringLength());
-            const rapidjson::Value* object = path.Get(context.document());
-            if (!object) {
+            if (!path.IsValid()) {
                 return nullptr;
             }
 
+            // member names may have embedded null characters, which rapidjson::Pointer::Get would mistake for the end of the name
+            const rapidjson::Value* object = &context.document();
+            for (std::size_t i = 0; i < path.GetTokenCount(); ++i) {
+                auto&& token = path.GetTokens()[i];
+                if (object->IsObject()) {
+                    auto&& it = object->FindMember(rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
+                    if (it == object->MemberEnd()) {
+                        return nullptr;
+                    }
+                    object = &it->value;
+                } else if (object->IsArray() && token.index < object->Size()) {
+                    object = &(*object)[token.index];
+                } else {
+                    return nullptr;
+                }
+            }
+
             return context.get<T>(object);
         }
     };
-- 
2.43.0


From 1089f36eb972144af164860c6655b205906fe09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:49 +0000
Subject: [PATCH 37/42] fix: perfect hash construction still never terminates
 for some short member names

---
 include/persistence/detail/perfect_hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 2146571..a699754 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -28,6 +28,8 @@ namespace persistence
                 d ^= d >> 16;
                 d *= 0x85ebca6b;
                 d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -46,6 +48,8 @@ namespace persistence
                 d ^= d >> 33;
                 d *= 0xff51afd7ed558ccd;
                 d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From 06d6ea7cbb6b12a21102aad95c975d600d97165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:31 +0000
Subject: [PATCH 38/42] fix: polymorphic stack does not reclaim all memory of
 an object whose base class is at a non-zero offset

---
 include/persistence/detail/polymorphic_stack.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 9fa19ce..e20658a 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -43,6 +43,7 @@ namespace persistence
 
                 // register object only when it has been successfully constructed
                 items[count] = current;
+                tops[count] = next;
                 ++count;
                 current = object;
                 next = reinterpret_cast<std::byte*>(object) + sizeof(Class);
@@ -81,7 +82,7 @@ namespace persistence
             {
                 --count;
                 current->~Base();
-                next = reinterpret_cast<std::byte*>(current);
+                next = tops[count];  // (base class sub-object need not lie at the start of the memory the object occupies)
                 current = items[count];
                 items[count] = nullptr;
             }
@@ -91,6 +92,7 @@ namespace persistence
             Base* current = nullptr;
             std::byte* next = memory;
             Base* items[Capacity] = { nullptr };
+            std::byte* tops[Capacity] = { nullptr };
             std::size_t count = 0;
         };
     }
-- 
2.43.0


From 0c50cc1dd52b2cf9327ee3c3edaf02aec8ca6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:05 +0000
Subject: [PATCH 39/42] fix: control characters U+001A to U+001F in long
 strings are written unescaped and accepted by the reader

---
 include/persistence/detail/config.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/persistence/detail/config.hpp b/include/persistence/detail/config.hpp
index 62bd4cd..9920ea6 100644
--- a/include/persistence/detail/config.hpp
+++ b/include/persistence/detail/config.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 // detect instructions which speed up RapidJSON whitespace identification
+// (vectorized code in RapidJSON v1.1.0, which lacks the header checked for, fails to recognize control characters U+001A to U+001F in strings)
+#if __has_include(<rapidjson/uri.h>)
 #if defined(__SSE4_2__)
 #define RAPIDJSON_SSE42
 #elif defined(__SSE2__) || (defined(_MSC_VER) && defined(_M_X64))
@@ -8,3 +10,4 @@
 #elif defined(__ARM_NEON)
 #define RAPIDJSON_NEON
 #endif
+#endif
-- 
2.43.0


From 42ebddf36475ee92a00679ea6ec736e6f40604e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 40/42] fix: do not copy an indeterminate value into an
 optional member whose deserialization fails

---
 include/persistence/deserialize_object.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index ab871c4..94550d3 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -38,8 +38,11 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(member.name()));
-                result = deserialize<Exception>(it->value, value, value_context) && result;
-                member.ref(object) = std::move(value);
+                if (deserialize<Exception>(it->value, value, value_context)) {
+                    member.ref(object) = std::move(value);
+                } else {
+                    result = false;
+                }
             } else {
                 member.ref(object) = std::nullopt;
             }
-- 
2.43.0


From 243d98d6a1a955c295af9221e4bf1c720b902763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:32 +0000
Subject: [PATCH 41/42] fix: schema of an empty tuple does not carry an empty
 prefixItems

---
 include/persistence/schema.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 8604bde..ed4a053 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -536,9 +536,11 @@ namespace persistence
             auto schema = JsonSchemaArrayType();
             schema.minItems = sizeof...(T);
             schema.maxItems = sizeof...(T);
-            std::vector<std::unique_ptr<JsonSchemaType>> items;
-            (items.push_back(make_schema_ptr<T>(context)), ...);
-            schema.prefixItems = std::move(items);
+            if constexpr (sizeof...(T) > 0) {
+                std::vector<std::unique_ptr<JsonSchemaType>> items;
+                (items.push_back(make_schema_ptr<T>(context)), ...);
+                schema.prefixItems = std::move(items);
+            }
             return schema;
         }
     };
-- 
2.43.0


From a725d818bdf981b38e72ab6621bb2352362de7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:54 +0000
Subject: [PATCH 42/42] fix: headers include everything that they use

---
 include/persistence/base64.hpp                  | 2 ++
 include/persistence/deserialize.hpp             | 1 +
 include/persistence/deserialize_enum.hpp        | 1 +
 include/persistence/deserialize_fundamental.hpp | 1 +
 include/persistence/detail/bitset.hpp           | 1 +
 include/persistence/detail/parse_event.hpp      | 1 +
 include/persistence/detail/path.hpp             | 2 ++
 include/persistence/detail/perfect_hash.hpp     | 2 ++
 include/persistence/enum_utility.hpp            | 3 +++
 include/persistence/schema.hpp                  | 6 ++++++
 include/persistence/serialize_enum.hpp          | 1 +
 include/persistence/serialize_object.hpp        | 1 +
 12 files changed, 22 insertions(+)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index 1efed10..982dc1b 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -4,6 +4,8 @@
 #include <array>
 #include <cstdint>
 #include <cstring>
+#include <string>
+#include <string_view>
 
 namespace persistence
 {
diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index fb15ecf..4ffab90 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/exact_number.hpp"
 #include "detail/traits.hpp"
diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 6368520..38b4051 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -2,6 +2,7 @@
 #include "enum.hpp"
 #include "deserialize_check.hpp"
 #include "deserialize_fundamental.hpp"
+#include "detail/traits.hpp"
 #include "detail/unlikely.hpp"
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enum_from_string.hpp>
diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index 55b48f9..c5f5d35 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
diff --git a/include/persistence/detail/bitset.hpp b/include/persistence/detail/bitset.hpp
index 350fccd..be86a23 100644
--- a/include/persistence/detail/bitset.hpp
+++ b/include/persistence/detail/bitset.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <array>
 #include <stdexcept>
 
 namespace persistence
diff --git a/include/persistence/detail/parse_event.hpp b/include/persistence/detail/parse_event.hpp
index ba40026..bcbed0a 100644
--- a/include/persistence/detail/parse_event.hpp
+++ b/include/persistence/detail/parse_event.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstdint>
 #include <string_view>
 
 namespace persistence
diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 1234756..36120cc 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include "segment.hpp"
 #include <charconv>
+#include <limits>
+#include <string>
 
 namespace persistence
 {
diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index a699754..e88b667 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include "bitset.hpp"
+#include <array>
+#include <cstdint>
 #include <string_view>
 
 namespace persistence
diff --git a/include/persistence/enum_utility.hpp b/include/persistence/enum_utility.hpp
index dbd2e54..09c319a 100644
--- a/include/persistence/enum_utility.hpp
+++ b/include/persistence/enum_utility.hpp
@@ -1,5 +1,8 @@
 #pragma once
 #include <array>
+#include <string_view>
+#include <type_traits>
+#include <utility>
 
 namespace persistence
 {
diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index ed4a053..c636221 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,7 +7,13 @@
 #include "detail/defer.hpp"
 #include "detail/pointer_traits.hpp"
 #include "detail/traits.hpp"
+#include <array>
+#include <limits>
+#include <memory>
+#include <optional>
 #include <set>
+#include <tuple>
+#include <variant>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enumerators.hpp>
 #endif
diff --git a/include/persistence/serialize_enum.hpp b/include/persistence/serialize_enum.hpp
index 562c8dd..d2c52d1 100644
--- a/include/persistence/serialize_enum.hpp
+++ b/include/persistence/serialize_enum.hpp
@@ -2,6 +2,7 @@
 #include "enum.hpp"
 #include "serialize_fundamental.hpp"
 #include "serialize_string.hpp"
+#include "detail/traits.hpp"
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enum_to_string.hpp>
 #endif
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index d56db06..5f92def 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -3,6 +3,7 @@
 #include "object_reflection.hpp"
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
+#include "detail/traits.hpp"
 #include "detail/unlikely.hpp"
 #include <optional>
 
-- 
2.43.0

