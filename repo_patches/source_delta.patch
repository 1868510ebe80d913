From 89556a229eff61d581c31099b390068ec8f6c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 01/44] fix: Value::Deserialize reports invalid content and
 survives huge lengths

A content length close to 2^32 wrapped around in the bounds check, and a
failure of the content decoder (0) was turned into a success of 5 bytes.
---
 Value.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..11455d6 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,10 +24,14 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
+    // only an undefined value may have no content
+    if (!len && GetType() != ValueTypeUndefined) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    if (DeserializeInternal(data + 5, len) != len) return 0;
+
+    return len + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
-- 
2.43.0


From 2d526a8401eb5e676a76232da68f9184b5c3064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 02/44] fix: ValueStr forgets the length of a string it failed
 to decode

The length read from the wire stayed set without any data behind it, so
that Get() and Serialize() read from a null pointer.
---
 values/ValueStr.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..31427f6 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -4,11 +4,9 @@
 #include "ValueStr.hpp"
 
 void DowowNetwork::ValueStr::DeleteBuffer() {
-    if (str_data) {
-        delete[] str_data;
-        str_data = 0;
-        str_length = 0;
-    }
+    delete[] str_data;
+    str_data = 0;
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
-- 
2.43.0


From 5cf9feff8d63b0997b146d71e46b3a1263fd85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 03/44] fix: ValueArr decoding stays within its content

The elements amount was read without checking that it is there and was
trusted for reserve() (std::length_error/bad_alloc), and the type of an
element just past the end was read.
---
 values/ValueArr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..139f0ab 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // check if the elements amount is present
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From a1625deb682fe17a5e99284ca107c264e966abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 04/44] fix: ValueUndefined copies and replaces its data
 correctly

CopyFrom() copied with the length of the destination, so it lost the data
or overflowed; decoding twice leaked or kept stale data.
---
 values/ValueUndefined.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..e2a8fca 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // forget the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
@@ -22,7 +27,8 @@ uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uin
 
 const char* DowowNetwork::ValueUndefined::SerializeInternal() const{
     char* copy = new char[GetSizeInternal()];
-    memcpy(copy, undefined_data, GetSizeInternal());
+    if (undefined_data_length)
+        memcpy(copy, undefined_data, GetSizeInternal());
     return copy;
 }
 
@@ -35,10 +41,12 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 }
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
-    if (undefined_data) free(undefined_data);
-    undefined_data =
-        malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
-    memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
+    if (original == this) return;
+
+    // DeserializeInternal() makes a copy of any data
+    DeserializeInternal(
+        static_cast<const char*>(static_cast<ValueUndefined*>(original)->undefined_data),
+        static_cast<ValueUndefined*>(original)->undefined_data_length);
 }
 
 DowowNetwork::ValueUndefined::~ValueUndefined() {
-- 
2.43.0


From 9dda72f5acd0a02eb490c406d62415c4d8dc02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/44] fix: Datum decoding checks that name and value fit in
 the datum

Otherwise the value type was read past the end and the value length
wrapped around.
---
 Datum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..e3e8f70 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the name and the smallest value do not fit in total_length
+    if (total_length < 6u + name_length + 5u) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From 43dff47caa7954801db68557c146061244203d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 06/44] fix: Request decoding stays within the request

The name could reach past the buffer, and bytes following the request were
decoded as its arguments.
---
 Request.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..8570ab1 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -103,7 +103,7 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    if (des_total_length < 10u + des_name_length) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,9 +115,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 8b20daaf2da3110bc5fd88bf4c1e577f83941f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 07/44] fix: decode multi-byte fields without misaligned loads

Fields in received buffers have arbitrary alignment; dereferencing a
misaligned pointer is undefined behaviour.
---
 Datum.cpp           | 8 ++++++--
 Request.cpp         | 9 ++++++---
 Value.cpp           | 5 +++--
 values/Value16S.cpp | 3 ++-
 values/Value16U.cpp | 3 ++-
 values/Value32S.cpp | 3 ++-
 values/Value32U.cpp | 3 ++-
 values/Value64S.cpp | 3 ++-
 values/Value64U.cpp | 3 ++-
 values/ValueArr.cpp | 4 +++-
 values/ValueStr.cpp | 3 ++-
 11 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index e3e8f70..90fece0 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -58,13 +58,17 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     if (length < 6) return 0;
 
     // get the length
-    uint32_t total_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
+    uint32_t total_length;
+    memcpy(&total_length, data, sizeof(total_length));
+    total_length = le32toh(total_length);
 
     // check if length is invalid
     if (length < total_length) return 0;
 
     // get the name length
-    uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
+    uint16_t name_length;
+    memcpy(&name_length, data + 4, sizeof(name_length));
+    name_length = le16toh(name_length);
 
     // check if the name and the smallest value do not fit in total_length
     if (total_length < 6u + name_length + 5u) return 0;
diff --git a/Request.cpp b/Request.cpp
index 8570ab1..a4e6972 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -92,9 +92,12 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
     if (data_size < 10) return 0;
 
     // reading header
-    uint32_t des_total_length = *reinterpret_cast<uint32_t*>((void*)data);
-    uint32_t des_id = *reinterpret_cast<uint32_t*>((void*)(data + 4));
-    uint16_t des_name_length = *reinterpret_cast<uint16_t*>((void*)(data + 8));
+    uint32_t des_total_length;
+    uint32_t des_id;
+    uint16_t des_name_length;
+    memcpy(&des_total_length, data, sizeof(des_total_length));
+    memcpy(&des_id, data + 4, sizeof(des_id));
+    memcpy(&des_name_length, data + 8, sizeof(des_name_length));
 
     // BO
     des_total_length = le32toh(des_total_length);
diff --git a/Value.cpp b/Value.cpp
index 11455d6..d47ec00 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -20,8 +20,9 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
     if (data[0] != GetType()) return 0;
     
     // trying to get length
-    uint32_t len = 
-        le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
+    uint32_t len;
+    memcpy(&len, data + 1, sizeof(len));
+    len = le32toh(len);
     
     // checking length
     if (len > length - 5) return 0;
diff --git a/values/Value16S.cpp b/values/Value16S.cpp
index c3d6068..4e78455 100644
--- a/values/Value16S.cpp
+++ b/values/Value16S.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value16S::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // read as uint16_t
-    uint16_t temp = *reinterpret_cast<const uint16_t*>(data);
+    uint16_t temp;
+    memcpy(&temp, data, sizeof(temp));
     // LE to host BO
     temp = le16toh(temp);
     // convert to int16_t
diff --git a/values/Value16U.cpp b/values/Value16U.cpp
index 0347252..170691a 100644
--- a/values/Value16U.cpp
+++ b/values/Value16U.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value16U::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // assign
-    value = le16toh(*reinterpret_cast<const uint16_t*>(data));
+    memcpy(&value, data, sizeof(value));
+    value = le16toh(value);
 
     return sizeof(value);
 }
diff --git a/values/Value32S.cpp b/values/Value32S.cpp
index 0ee9926..cc4a6e0 100644
--- a/values/Value32S.cpp
+++ b/values/Value32S.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value32S::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // read as uint32_t
-    uint32_t temp = *reinterpret_cast<const uint32_t*>(data);
+    uint32_t temp;
+    memcpy(&temp, data, sizeof(temp));
     // LE to host BO
     temp = le32toh(temp);
     // convert to int32_t
diff --git a/values/Value32U.cpp b/values/Value32U.cpp
index 0639044..d1f2d6c 100644
--- a/values/Value32U.cpp
+++ b/values/Value32U.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value32U::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // assign
-    value = le32toh(*reinterpret_cast<const uint32_t*>(data));
+    memcpy(&value, data, sizeof(value));
+    value = le32toh(value);
 
     return sizeof(value);
 }
diff --git a/values/Value64S.cpp b/values/Value64S.cpp
index bdea4f6..5e5a371 100644
--- a/values/Value64S.cpp
+++ b/values/Value64S.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value64S::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // read as uint64_t
-    uint64_t temp = *reinterpret_cast<const uint64_t*>(data);
+    uint64_t temp;
+    memcpy(&temp, data, sizeof(temp));
     // LE to host BO
     temp = le64toh(temp);
     // convert to int64_t
diff --git a/values/Value64U.cpp b/values/Value64U.cpp
index 6144a7e..a3cf282 100644
--- a/values/Value64U.cpp
+++ b/values/Value64U.cpp
@@ -13,7 +13,8 @@ uint32_t DowowNetwork::Value64U::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(value)) return 0;
 
     // assign
-    value = le64toh(*reinterpret_cast<const uint64_t*>(data));
+    memcpy(&value, data, sizeof(value));
+    value = le64toh(value);
 
     return sizeof(value);
 }
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 139f0ab..4fcaeb3 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -15,7 +15,9 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     if (length < 4) return 0;
 
     // read the elements amound
-    uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
+    uint32_t elements_amount;
+    memcpy(&elements_amount, data, sizeof(elements_amount));
+    elements_amount = le32toh(elements_amount);
 
     // each element takes at least 5 bytes
     if (elements_amount > (length - 4) / 5) return 0;
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index 31427f6..197c52e 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -25,7 +25,8 @@ uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t
     if (length < sizeof(str_length)) return 0;
 
     // read the length
-    str_length = le32toh(*reinterpret_cast<const uint32_t*>(data));
+    memcpy(&str_length, data, sizeof(str_length));
+    str_length = le32toh(str_length);
 
     // check if wrong length
     if (length != str_length + 4) {
-- 
2.43.0


From b907f2711fb416f4a9c811f480fa40f70ab2ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 08/44] fix: values may be set from (a part of) the value they
 replace

The old value was deleted before the new one was copied from it.
---
 Datum.cpp           |  7 +++++--
 values/ValueArr.cpp | 19 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index 90fece0..e3f0605 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,8 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the old value, it may contain the new one
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +49,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    if (old_value != this->value) delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4fcaeb3..e9b000c 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -109,11 +109,13 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // delete the old value, it may contain the one that is copied
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -147,9 +149,12 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    // copy to a separate array, as the original may be inside this one
+    ValueArr copy;
+    copy.New(original->array.size());
+    for (size_t i = 0; i < copy.array.size(); i++)
+        copy.Set(i, original->Get(i));
+    array.swap(copy.array);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From 59bf3e37be6d144c549c21ee71ef57d8f80ebbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 09/44] fix: Request::Set() with a null value deletes the
 argument

As documented; it used to set (or even create) an undefined argument.
---
 Request.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Request.cpp b/Request.cpp
index a4e6972..c9a698c 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -26,6 +26,16 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
+    // no value - delete the argument
+    if (!value) {
+        arguments.remove_if([&name](Datum* dat) {
+            if (dat->GetName() != name) return false;
+            delete dat;
+            return true;
+        });
+        return;
+    }
+
     if (Get(name)) {
         // argument is already set
         auto temp_iter = 
-- 
2.43.0


From d0b73ce842bde3dfc6990da58ac14ce4ccfe92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 10/44] fix: Request::CopyFrom() makes an exact copy

It merged the arguments into the existing ones and collapsed arguments of
the same name.
---
 Request.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index c9a698c..7bc49de 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -149,12 +149,21 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    if (original == this) return;
+
+    // delete the old arguments
+    for (auto i : arguments) delete i;
+    arguments.clear();
+
     SetName(original->GetName());
     SetId(original->GetId());
     const auto& original_args = original->GetArguments();
     // copy the arguments
     for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+        Datum* copy = new Datum();
+        copy->SetName(d->GetName());
+        copy->SetValue(d->GetValue());
+        arguments.push_back(copy);
     }
 }
 
-- 
2.43.0


From 8d390c7921fc010cf9afa89050f591e0cf12b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 11/44] fix: copying values, datums and requests makes deep
 copies

The implicit copy constructors copied owning pointers, so that e.g.
Request::Emplace<ValueStr>(name, existing_value) freed memory twice.
---
 Datum.cpp                 | 10 ++++++++++
 Datum.hpp                 |  4 ++++
 Request.cpp               |  9 +++++++++
 Request.hpp               |  4 ++++
 values/ValueArr.cpp       |  4 ++++
 values/ValueArr.hpp       |  2 ++
 values/ValueStr.cpp       |  4 ++++
 values/ValueStr.hpp       |  2 ++
 values/ValueUndefined.cpp |  4 ++++
 values/ValueUndefined.hpp |  2 ++
 10 files changed, 45 insertions(+)

diff --git a/Datum.cpp b/Datum.cpp
index e3f0605..091ccd1 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -8,6 +8,16 @@ DowowNetwork::Datum::Datum() {
     this->value = new ValueUndefined();
 }
 
+DowowNetwork::Datum::Datum(const Datum& original) : Datum() {
+    *this = original;
+}
+
+DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& original) {
+    SetName(original.name);
+    SetValue(original.value);
+    return *this;
+}
+
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
diff --git a/Datum.hpp b/Datum.hpp
index 555a926..226b212 100644
--- a/Datum.hpp
+++ b/Datum.hpp
@@ -21,6 +21,10 @@ namespace DowowNetwork {
     public:
         /// Create a new empty datum.
         Datum();
+        /// Create a deep copy of the datum.
+        Datum(const Datum& original);
+        /// Replace with a deep copy of the datum.
+        Datum& operator=(const Datum& original);
 
         /// Check if the Datum is a valid one.
         /*!
diff --git a/Request.cpp b/Request.cpp
index 7bc49de..2c7ac92 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -9,6 +9,15 @@ DowowNetwork::Request::Request(std::string name) : name(name) {
 
 }
 
+DowowNetwork::Request::Request(const Request& original) {
+    CopyFrom(&original);
+}
+
+DowowNetwork::Request& DowowNetwork::Request::operator=(const Request& original) {
+    CopyFrom(&original);
+    return *this;
+}
+
 void DowowNetwork::Request::SetName(std::string name) {
     this->name = name;
 }
diff --git a/Request.hpp b/Request.hpp
index 9a0a394..3169fcf 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -30,6 +30,10 @@ namespace DowowNetwork {
             \param name the name of the Request
         */
         explicit Request(std::string name = "");
+        /// Create a deep copy of the Request.
+        Request(const Request& original);
+        /// Replace with a deep copy of the Request.
+        Request& operator=(const Request& original);
 
         /// Set the name of the Request.
         /*!
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index e9b000c..da39f54 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
 
+DowowNetwork::ValueArr::ValueArr(const ValueArr& original) : ValueArr() {
+    CopyFrom(const_cast<ValueArr*>(&original));
+}
+
 uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     Clear();
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..6331932 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -18,6 +18,8 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueArr();
+        // deep copy
+        ValueArr(const ValueArr& original);
 
         // get element #index.
         // Returns 0 if oob.
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index 197c52e..f1d7f07 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -17,6 +17,10 @@ DowowNetwork::ValueStr::ValueStr(const char *str) : ValueStr(std::string(str)) {
     
 }
 
+DowowNetwork::ValueStr::ValueStr(const ValueStr& original) : ValueStr(original.Get()) {
+
+}
+
 uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     DeleteBuffer();
diff --git a/values/ValueStr.hpp b/values/ValueStr.hpp
index f50ab9c..de78c0a 100644
--- a/values/ValueStr.hpp
+++ b/values/ValueStr.hpp
@@ -22,6 +22,8 @@ namespace DowowNetwork {
     public:
         ValueStr(std::string str = "");
         ValueStr(const char* str);
+        // deep copy
+        ValueStr(const ValueStr& original);
 
         // getters and setters
         std::string Get() const;
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e2a8fca..670acd0 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
     
 }
 
+DowowNetwork::ValueUndefined::ValueUndefined(const ValueUndefined& original) : ValueUndefined() {
+    CopyFrom(const_cast<ValueUndefined*>(&original));
+}
+
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
     // forget the old data
     free(undefined_data);
diff --git a/values/ValueUndefined.hpp b/values/ValueUndefined.hpp
index 1051ddc..946bb38 100644
--- a/values/ValueUndefined.hpp
+++ b/values/ValueUndefined.hpp
@@ -15,6 +15,8 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueUndefined();
+        // deep copy
+        ValueUndefined(const ValueUndefined& original);
 
         void CopyFrom(Value* original);
 
-- 
2.43.0


From b9fa300056395bacc54e43b8cfeb46f787e8d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 12/44] fix: receive a request length that arrives in several
 pieces

Each piece overwrote the first bytes of the length.
---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From 66d469c5ae5339f043c7f184fa47286b45e94d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/44] fix: close the connection on a request length smaller
 than its header

A length below 4 made the length field be written past the end of the
buffer.
---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..77261a3 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -258,8 +258,9 @@ bool DowowNetwork::Connection::Receive() {
                 // get the buffer length
                 recv_buffer_length = le32toh(recv_buffer_length);
 
-                // check if too big
-                if (recv_buffer_length > recv_buffer_max_length) {
+                // check if too big or does not even include the length itself
+                if (recv_buffer_length > recv_buffer_max_length ||
+                    recv_buffer_length <= sizeof(recv_buffer_length)) {
                     // the connection is broken
                     return false;
                 }
-- 
2.43.0


From 5e7a4124d834ac57fd3ba9157579409dc6b3db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 14/44] fix: clients use the odd half of request IDs

Both endpoints used even IDs, so requests of the two sides got the same
IDs.
---
 Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..c8f4859 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -65,7 +65,7 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     c->temp_socket_fd = -1;
 
     // setup the request id part
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
@@ -104,7 +104,7 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->temp_socket_fd = -1;
 
     // request part setup
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
-- 
2.43.0


From f33e340ffa30e9e35e55cc5485d79bdd569a7100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 15/44] fix: graceful disconnection ends even if there is
 nothing to send

The dummy request was refused, because the connection had already been
marked as disconnecting, so the polling thread never woke up.
---
 Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 77261a3..51ae8a5 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -681,14 +681,14 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection (nothing can be pushed from now on)
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From 8dd8a68185889d0fb6707d567d0c80bb7c80b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 16/44] fix: a connection can not be closed in the middle of
 Push()

The request was left in the queue of a closed connection (and sent in the
next session) and a closed descriptor was written to.
---
 Connection.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 51ae8a5..32cfe45 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -536,17 +536,16 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock until the request is queued, so that the connection
+    // can not be closed meanwhile
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From a33575832fd002c32590ea8de220993da2ef9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 17/44] fix: do not hold the connection's mutex while its
 handlers run

Handlers of two connections that push to each other deadlocked.
---
 Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 32cfe45..dc197ff 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -70,8 +70,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
+        // connected/disconnecting mutex must not be locked while
+        // the handlers are running: they may wait for other connections
 
         // ***************
         // 'to_stop' event
-- 
2.43.0


From c36a228373c02820cd51c0b7d44449c737f904a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 18/44] fix: references keep an ended connection alive and
 usable

The connection was torn down when any (not the last) reference was
released or when one was taken too late, and calls made through a
reference blocked forever on a mutex held during the wait.
---
 Connection.cpp | 52 ++++++++++++++++++++++++++++++++------------------
 Connection.hpp |  3 +++
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index dc197ff..60740a2 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -130,10 +130,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     }
 
     // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
-
+    c->mutex_cd.lock();
     // mark as disconnecting
     c->is_disconnecting = true;
+    // unlock: those who still use the connection may need it
+    c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
     if (c->receive_event != -1) {
@@ -141,23 +142,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         close(c->receive_event);
     }
 
-    // lock the reference counter
-    c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
-
-    // needed by someone
-    if (c->not_needed_event != -1) {
-        // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
+    // wait until the Connection is not needed anymore
+    c->WaitUntilNotNeeded();
 
-        // close the event
-        close(c->not_needed_event);
-        c->not_needed_event = -1;
-    }
+    // lock the connected/disconnecting mutex
+    MTLock(__mcd, c->mutex_cd);
 
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
@@ -187,6 +176,28 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     Utils::WriteEventFd(c->stopped_event, 1);
 }
 
+void DowowNetwork::Connection::WaitUntilNotNeeded() {
+    // lock the reference counter
+    mutex_ra.lock();
+    while (GetRefs()) {
+        // still referenced by external code, setup event
+        not_needed_event = eventfd(0, 0);
+
+        // unlock the reference counter
+        mutex_ra.unlock();
+        // wait for the last reference to be gone
+        Utils::SelectRead(not_needed_event, -1);
+        // lock the reference counter
+        mutex_ra.lock();
+
+        // close the event
+        close(not_needed_event);
+        not_needed_event = -1;
+    }
+    // unlock the reference counter
+    mutex_ra.unlock();
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -662,7 +673,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (!refs_amount && not_needed_event != -1)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
@@ -796,6 +807,9 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // references may have been taken after the thread was stopped
+    WaitUntilNotNeeded();
+
     // close the stopped eventfd
     close(stopped_event);
 }
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..d88555d 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -142,6 +142,9 @@ namespace DowowNetwork {
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
 
+        //! Wait until there are no references to the Connection.
+        void WaitUntilNotNeeded();
+
         //! Pass the Requests through assigned handlers.
         /*!
             \return
-- 
2.43.0


From 653bf3a0d110732fdd2daf48a3c5e260cc975123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 19/44] fix: Pull() waits for seconds and is woken by
 disconnection

The timeout was taken as milliseconds, a wait on a closed connection never
ended, and the receive event was used and closed (twice) without a lock.
---
 Connection.cpp | 21 ++++++++++-----------
 Connection.hpp |  2 ++
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 60740a2..ae1763a 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -137,10 +137,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
+    c->mutex_rq.lock();
+    c->is_receiving = false;
+    if (c->receive_event != -1)
         Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.unlock();
 
     // wait until the Connection is not needed anymore
     c->WaitUntilNotNeeded();
@@ -330,12 +331,12 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
 
                             // queue updated, notify outer code
                             if (receive_event != -1) {
                                 Utils::WriteEventFd(receive_event, 1);
                             }
+                            mutex_rq.unlock();
                         }
                     }
                 }
@@ -499,6 +500,7 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         delete recv_queue.front();
         recv_queue.pop();
     }
+    is_receiving = true;
     mutex_rq.unlock();
 
     // assign the socket
@@ -618,8 +620,8 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
         return req;
     }
 
-    // no timeout
-    if (!timeout) {
+    // no timeout or nothing to wait for
+    if (!timeout || !is_receiving) {
         mutex_rq.unlock();
         return 0;
     }
@@ -633,14 +635,11 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
     // unlock
     mutex_rq.unlock();
 
-    // poll
-    poll(&pollfds, 1, timeout);
+    // wait (for the specified amount of seconds)
+    Utils::SelectRead(receive_event, timeout);
 
     // lock
     mutex_rq.lock();
diff --git a/Connection.hpp b/Connection.hpp
index d88555d..c820bdb 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -94,6 +94,8 @@ namespace DowowNetwork {
         uint32_t recv_buffer_offset = 0;
         //! The queue of the received requests.
         std::queue<Request*> recv_queue;
+        //! May anything be added to the receive queue?
+        bool is_receiving = false;
         //! Is receiving the request length right now?
         bool is_recv_length = true;
 
-- 
2.43.0


From 84bd6e0f63cc238067a72df6962932f29a1ccdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 20/44] fix: setting timer intervals never touches closed
 descriptors

---
 Connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index ae1763a..8746cbf 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -156,6 +156,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->to_stop_event);
     close(c->our_sa_timer);
     close(c->their_na_timer);
+    // the descriptors may be reused by anyone from now on
+    c->socket_fd = -1;
+    c->push_event = -1;
+    c->to_stop_event = -1;
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
 
     // delete buffers
     c->DeleteSendBuffer();
@@ -531,6 +537,8 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    // lock: the timer may be closed meanwhile
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -540,6 +548,8 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    // lock: the timer may be closed meanwhile
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
-- 
2.43.0


From 2c7db0edacde1bd12733acdf1a6ec8877a48c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 21/44] fix: delete the requests that nobody pulled with the
 connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 8746cbf..323b36b 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -819,6 +819,12 @@ DowowNetwork::Connection::~Connection() {
     // references may have been taken after the thread was stopped
     WaitUntilNotNeeded();
 
+    // delete the requests nobody pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
-- 
2.43.0


From 6ffc24296323292581f5456dd72e355a333144fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 22/44] fix: the polling thread never blocks in send() or
 recv()

With big send blocks both endpoints could block in send() forever, and an
interrupted call was taken for a broken connection.
---
 Connection.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 323b36b..4867aa1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -10,6 +10,7 @@
 #include <sys/eventfd.h>
 #include <sys/timerfd.h>
 #include <ctime>
+#include <errno.h>
 #include <unistd.h>
 
 #include "Utils.hpp"
@@ -261,10 +262,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && (errno == EAGAIN || errno == EINTR)) {
+            // nothing is wrong, try again later
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // the connection is broken
             return false;
         } else {
@@ -308,10 +312,13 @@ bool DowowNetwork::Connection::Receive() {
             socket_fd,
             recv_buffer + recv_buffer_offset,
             bytes_left < recv_block_size ? bytes_left : recv_block_size,
-            0);
+            MSG_DONTWAIT);
 
         // check results
-        if (recv_res == -1 || recv_res == 0) {
+        if (recv_res == -1 && (errno == EAGAIN || errno == EINTR)) {
+            // nothing is wrong, try again later
+            return true;
+        } else if (recv_res == -1 || recv_res == 0) {
             // connection is broken
             return false;
         } else {
@@ -382,10 +389,13 @@ bool DowowNetwork::Connection::Send() {
             socket_fd,
             send_buffer + send_buffer_offset,
             left_to_send < send_block_size ? left_to_send : send_block_size,
-            MSG_NOSIGNAL);
+            MSG_NOSIGNAL | MSG_DONTWAIT);
 
         // check result
-        if (send_res == -1 || send_res == 0) {
+        if (send_res == -1 && (errno == EAGAIN || errno == EINTR)) {
+            // nothing is wrong, try again later
+            return true;
+        } else if (send_res == -1 || send_res == 0) {
             // the connection is broken
             return false;
         } else {
-- 
2.43.0


From 57bf6259df321820a317504fc1c22e255efc252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 23/44] fix: signals stop neither the server nor a connection
 nor a wait

An interrupted poll() made the server quit and waits end early.
---
 Connection.cpp |  4 +++-
 Server.cpp     | 15 ++++++---------
 Utils.cpp      | 23 +++++++++++++++++++++--
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 4867aa1..866ae7d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -66,10 +66,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        int poll_res = poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
+        // interrupted, there are no valid results
+        if (poll_res == -1) continue;
 
         // connected/disconnecting mutex must not be locked while
         // the handlers are running: they may wait for other connections
diff --git a/Server.cpp b/Server.cpp
index a880342..b5d842b 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -69,10 +69,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        int poll_res = poll(
             pollfds,
             2 + s->connections.size(),
             -1);
+        // interrupted, there are no valid results
+        if (poll_res == -1) {
+            delete[] pollfds;
+            continue;
+        }
 
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
@@ -120,14 +125,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             }
         }
 
-        // *************************************
-        // no new connections, no deleted - quit
-        // *************************************
-        else if (!deleted_conns.size()) {
-            delete[] pollfds;
-            break;
-        }
-
         // free memory
         delete[] pollfds;
         continue;
diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..3fd3950 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,23 +1,42 @@
 #include "Utils.hpp"
 
+#include <errno.h>
+#include <limits.h>
 #include <unistd.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
 #include <time.h>
+#include <chrono>
 
 // zero timespan
 const timespec zero_time { 0, 0 };
 
+// poll one descriptor, wait for the rest of the timeout if interrupted
+static void PollOne(pollfd* pollfds, int seconds) {
+    using namespace std::chrono;
+
+    auto deadline = steady_clock::now() + std::chrono::seconds(seconds);
+    // infinitely long if negative
+    int64_t left = seconds < 0 ? -1 : seconds * INT64_C(1000);
+
+    while (poll(pollfds, 1, left > INT_MAX ? INT_MAX : left) == -1 && errno == EINTR) {
+        pollfds->revents = 0;
+        if (seconds < 0) continue;
+        left = duration_cast<milliseconds>(deadline - steady_clock::now()).count() + 1;
+        if (left < 0) left = 0;
+    }
+}
+
 bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
     pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    PollOne(&pollfds, seconds);
 
     return pollfds.revents & POLLOUT;
 }
 
 bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
     pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    PollOne(&pollfds, seconds);
 
     return pollfds.revents & POLLIN;
 }
-- 
2.43.0


From 620404e83677097d17c32472e8d2fa53c6dbccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 24/44] fix: keep-alive timers that expire together with
 traffic

Sending rearmed the still-alive timer, reading which then blocked the
polling thread for a whole interval; a peer whose data was waiting (e.g.
while a handler was running) was dropped as silent.
---
 Connection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 866ae7d..dc65d9d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -119,8 +119,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         // *********************
         // their not-alive event
         // *********************
-        if (pollfds[3].revents & POLLIN) {
-            // close, they're timed out.
+        if ((pollfds[3].revents & POLLIN) && !(pollfds[1].revents & POLLIN)) {
+            // close, they're timed out and have sent nothing.
             break;
         }
         // **********
@@ -499,8 +499,9 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     to_stop_event = eventfd(0, 0);
 
     // create the timers for keep-alive mechanism
-    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, 0);
-    their_na_timer = timerfd_create(CLOCK_MONOTONIC, 0);
+    // (nonblocking, as they may be rearmed before they are read)
+    our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
+    their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-- 
2.43.0


From f7a2b5de747c34376dfc6a52ba4297fe6b8d8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 25/44] fix: settings and state shared with the background
 threads are not raced

They are read and written by user threads, handlers and the background
threads at the same time; named handlers get a mutex, scalars are atomic.
---
 Client.hpp     |  3 ++-
 Connection.cpp | 16 ++++++++++++++--
 Connection.hpp | 19 +++++++++++--------
 Server.hpp     |  5 +++--
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/Client.hpp b/Client.hpp
index 1a9a3cd..ca836d1 100644
--- a/Client.hpp
+++ b/Client.hpp
@@ -10,6 +10,7 @@
 #include "Connection.hpp"
 #include "SocketType.hpp"
 
+#include <atomic>
 #include <mutex>
 
 namespace DowowNetwork {
@@ -24,7 +25,7 @@ namespace DowowNetwork {
         std::mutex mutex_tsfd;
 
         // file descriptor for a socket trying to connect to the server
-        int temp_socket_fd = -1;
+        std::atomic<int> temp_socket_fd{-1};
 
         // connecting thread event
         int connect_event = -1;
diff --git a/Connection.cpp b/Connection.cpp
index dc65d9d..082275d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -309,11 +309,14 @@ bool DowowNetwork::Connection::Receive() {
         uint32_t bytes_left =
             recv_buffer_length - recv_buffer_offset;
 
+        // the block size may be changed at any moment
+        uint32_t block_size = recv_block_size;
+
         // receive
         int recv_res = recv(
             socket_fd,
             recv_buffer + recv_buffer_offset,
-            bytes_left < recv_block_size ? bytes_left : recv_block_size,
+            bytes_left < block_size ? bytes_left : block_size,
             MSG_DONTWAIT);
 
         // check results
@@ -385,12 +388,15 @@ bool DowowNetwork::Connection::Send() {
         uint32_t left_to_send =
             send_buffer_length - send_buffer_offset;
 
+        // the block size may be changed at any moment
+        uint32_t block_size = send_block_size;
+
         // write to the socket.
         // MSG_NOSIGNAL to disable broken pipe signal
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
-            left_to_send < send_block_size ? left_to_send : send_block_size,
+            left_to_send < block_size ? left_to_send : block_size,
             MSG_NOSIGNAL | MSG_DONTWAIT);
 
         // check result
@@ -761,6 +767,9 @@ DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    // lock: the background thread may be looking for a handler
+    MTLock(__mhn, mutex_hn);
+
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -775,6 +784,9 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    // lock
+    MTLock(__mhn, mutex_hn);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index c820bdb..ef99a44 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -19,6 +19,7 @@
 #include <ctime>
 #endif
 
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -52,24 +53,26 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for named handlers
+        std::recursive_mutex mutex_hn;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
         //! Use even or odd request ids?
         bool is_even_request_parts = false;
         //! Is disconnection in progress?
-        bool is_disconnecting = false;
+        std::atomic<bool> is_disconnecting{false};
 
         //! The socket file descriptor.
         int socket_fd = -1;
 
         //! The socket type.
         //! SocketTypeUndefined is interpreted as 'not connected'
-        uint8_t socket_type = SocketTypeUndefined;
+        std::atomic<uint8_t> socket_type{SocketTypeUndefined};
 
         //! The maximum amount of bytes we will attempt to send
         //! at a time.
-        uint32_t send_block_size = 1024;
+        std::atomic<uint32_t> send_block_size{1024};
         //! The send buffer.
         const char* send_buffer = 0;
         //! The length of the send buffer.
@@ -81,11 +84,11 @@ namespace DowowNetwork {
 
         //! The maximum amount of bytes we will attempt to receive
         //! at a time.
-        uint32_t recv_block_size = 1024;
+        std::atomic<uint32_t> recv_block_size{1024};
         //! The maxiumum allowed size of the receive buffer.
         //! The connection will be closed if they'll try to violate
         //! this limit.
-        uint32_t recv_buffer_max_length = 16 * 1024;
+        std::atomic<uint32_t> recv_buffer_max_length{16 * 1024};
         //! The receive buffer.
         char* recv_buffer = 0;
         //! The receive buffer length.
@@ -103,7 +106,7 @@ namespace DowowNetwork {
         void* session_data = 0;
 
         //! The pointer to the default request handler.
-        RequestHandler handler_default = 0;
+        std::atomic<RequestHandler> handler_default{0};
         //! The map of the pointers to the named request handlers.
         std::map<std::string, RequestHandler> handlers_named;
 
@@ -123,9 +126,9 @@ namespace DowowNetwork {
         int their_na_timer = -1;
 
         //! Our keep_alive interval
-        time_t our_sa_interval = 10;
+        std::atomic<time_t> our_sa_interval{10};
         //! The amount of time they are considered disconnected after.
-        time_t their_na_interval = 60;
+        std::atomic<time_t> their_na_interval{60};
 
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..24a49c9 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -11,6 +11,7 @@
 #include <list>
 
 #include <sys/eventfd.h>
+#include <atomic>
 #include <mutex>
 
 #include "Connection.hpp"
@@ -31,10 +32,10 @@ namespace DowowNetwork {
         // accepted clients
         std::list<Connection*> connections;
         // maximum amount of connected clients, negative for unlimited
-        int32_t max_connections = -1;
+        std::atomic<int32_t> max_connections{-1};
 
         // socket type (undefined if server is not running)
-        uint8_t socket_type = SocketTypeUndefined; 
+        std::atomic<uint8_t> socket_type{SocketTypeUndefined}; 
 
         // unix socket path
         std::string unix_socket_path;
-- 
2.43.0


From b251fea3ae289589ffa23a459c8b03a74b85a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 26/44] fix: refuse UNIX socket paths that do not fit into the
 address

They overflowed the address on the stack.
---
 Client.cpp | 9 +++++++++
 Server.cpp | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Client.cpp b/Client.cpp
index c8f4859..5479bfa 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -78,6 +78,15 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     // create the address to connect to
     sockaddr_un addr;
     addr.sun_family = AF_UNIX;
+    // the path does not fit
+    if (socket_path.size() + 1 > sizeof(addr.sun_path)) {
+        // invalid
+        close(c->temp_socket_fd);
+        c->temp_socket_fd = -1;
+        // notify
+        Utils::WriteEventFd(c->connect_event, 1);
+        return;
+    }
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
     // connect
diff --git a/Server.cpp b/Server.cpp
index b5d842b..6ca455d 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -175,6 +175,11 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // check if the path does not fit into the address
+    sockaddr_un addr;
+    if (path.size() + 1 > sizeof(addr.sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
@@ -191,7 +196,6 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     }
 
     // bind
-    sockaddr_un addr;
     addr.sun_family = AF_UNIX;
     memcpy(
         &addr.sun_path,
-- 
2.43.0


From 527a04b61baf770843b511a52863f146a20ae80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 27/44] fix: the timeout of ConnectTcp() and ConnectUnix() is
 honoured

The socket was left blocking (1 is not O_NONBLOCK), so that connecting to
an endpoint that does not answer ignored the timeout.
---
 Client.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 5479bfa..fa43ff3 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -5,6 +5,8 @@
 #include <endian.h>
 #include <unistd.h>
 #include <sys/un.h>
+#include <sys/socket.h>
+#include <sys/time.h>
 #include <sys/select.h>
 #include <sys/timerfd.h>
 #include <sys/eventfd.h>
@@ -46,7 +48,12 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        int error = 0;
+        socklen_t error_len = sizeof(error);
+        connect_res =
+            !Utils::SelectWrite(c->temp_socket_fd, timeout) ||
+            getsockopt(c->temp_socket_fd, SOL_SOCKET, SO_ERROR, &error, &error_len) ||
+            error;
     }
 
     // fail
@@ -89,14 +96,20 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     }
     memcpy(addr.sun_path, socket_path.c_str(), socket_path.size() + 1);
 
-    // connect
-    int connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
+    // the send timeout limits the time of waiting in connect()
+    timeval connect_timeout { timeout > 0 ? timeout : 0, 0 };
+    setsockopt(
+        c->temp_socket_fd,
+        SOL_SOCKET,
+        SO_SNDTIMEO,
+        &connect_timeout,
+        sizeof(connect_timeout));
 
-    // in progress
-    if (connect_res == -1 && errno == EINPROGRESS) {
-        // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
-    }
+    // connect
+    int connect_res;
+    do {
+        connect_res = connect(c->temp_socket_fd, (sockaddr*)&addr, sizeof(addr));
+    } while (connect_res == -1 && errno == EINTR);
 
     // fail
     if (connect_res) {
@@ -138,7 +151,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
+    int nb_state = O_NONBLOCK;
     fcntl(temp_socket_fd, F_SETFL, nb_state);
 
     // create event
-- 
2.43.0


From 89817c3020a953b5f0c41b51a00add5cd5307a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 28/44] fix: a server works without connected and disconnected
 handlers

---
 Server.cpp | 12 ++++++++----
 Server.hpp |  8 ++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 6ca455d..2f2d482 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -30,8 +30,9 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
     Connection *conn = new Connection(temp_fd);
 
     // call the handler if set
-    if (GetConnectedHandler()) {
-        (*GetConnectedHandler())(this, conn);
+    ConnectionHandler handler = GetConnectedHandler();
+    if (handler) {
+        (*handler)(this, conn);
     }
 
     // success
@@ -99,8 +100,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         i = 0;
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
-                // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                // call 'disconnected' handler if set
+                ConnectionHandler handler = s->GetDisconnectedHandler();
+                if (handler) {
+                    (*handler)(s, c);
+                }
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index 24a49c9..5be25d2 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -58,10 +58,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        std::atomic<ConnectionHandler> connected_handler{0};
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        std::atomic<ConnectionHandler> disconnected_handler{0};
 
         /// Accept one client.
         Connection* AcceptOne();
@@ -89,9 +89,7 @@ namespace DowowNetwork {
 
         /// Set the 'connected' handler.
         inline void SetConnectedHandler(ConnectionHandler handler) {
-            mutex_server.lock();
             connected_handler = handler;
-            mutex_server.unlock();
         }
         /// Get the 'connected' handler.
         inline ConnectionHandler GetConnectedHandler() {
@@ -99,9 +97,7 @@ namespace DowowNetwork {
         }
         /// Set the 'disconnected' handler.
         inline void SetDisconnectedHandler(ConnectionHandler handler) {
-            mutex_server.lock();
             disconnected_handler = handler;
-            mutex_server.unlock();
         }
         /// Get the 'disconnected' handler.
         inline ConnectionHandler GetDisconnectedHandler() {
-- 
2.43.0


From ebaa423ebf187cd8185d5f19c6dd85f4eaac7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 29/44] fix: connections have their ID when the connected
 handler runs

---
 Server.cpp | 10 ++++++----
 Server.hpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 2f2d482..c284dc4 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -20,7 +20,7 @@
 #include "Utils.hpp"
 #include "Server.hpp"
 
-DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
+DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     // accept
     int temp_fd = accept4(socket_fd, 0, 0, 0);
     // failed
@@ -28,6 +28,8 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // assign the id
+    conn->id = id;
 
     // call the handler if set
     ConnectionHandler handler = GetConnectedHandler();
@@ -119,11 +121,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         if (pollfds[0].revents & POLLIN) {
             // accept
-            Connection *new_conn = s->AcceptOne();
+            Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
             if (new_conn) {
-                // assign the id
-                new_conn->id = free_conn_id++;
+                // the id is used
+                free_conn_id++;
                 // add to the list of connections
                 s->connections.push_back(new_conn);
             }
diff --git a/Server.hpp b/Server.hpp
index 5be25d2..ceb2590 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -63,8 +63,8 @@ namespace DowowNetwork {
         //! Called
         std::atomic<ConnectionHandler> disconnected_handler{0};
 
-        /// Accept one client.
-        Connection* AcceptOne();
+        /// Accept one client and give it the specified ID.
+        Connection* AcceptOne(uint32_t id);
 
         static void ServerThreadFunc(Server *server);
     public:
-- 
2.43.0


From 9764031221b8a7eb480b06b010a476797f945531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 30/44] fix: connections can be looked up while others come and
 go

---
 Server.cpp | 37 +++++++++++++++++++++++++------------
 Server.hpp |  3 +++
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index c284dc4..4bf43a3 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -82,8 +82,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             continue;
         }
 
-        // lock
-        std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+        // nothing must be locked while the handlers are running
+        // and the connections are being deleted
 
         // ***************************
         // check if 'to_stop' occurred
@@ -107,14 +107,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 if (handler) {
                     (*handler)(s, c);
                 }
-                // delete the connection
-                delete c;
                 deleted_conns.push_back(c);
             }
         }
-        // remove deleted connections
+        // remove deleted connections, so that nobody can find them
+        s->mutex_connections.lock();
         for (auto c : deleted_conns)
             s->connections.remove(c);
+        s->mutex_connections.unlock();
+        // delete the connections (as soon as they are not referenced)
+        for (auto c : deleted_conns)
+            delete c;
 
         // ***********************
         // check if new connection
@@ -127,7 +130,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // the id is used
                 free_conn_id++;
                 // add to the list of connections
+                s->mutex_connections.lock();
                 s->connections.push_back(new_conn);
+                s->mutex_connections.unlock();
             }
         }
 
@@ -136,25 +141,27 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // make sure nobody can find the connections anymore
+    std::list<Connection*> open_conns;
+    s->mutex_connections.lock();
+    open_conns.swap(s->connections);
+    s->mutex_connections.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    for (auto c : open_conns) {
         c->Disconnect(true);
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
-    
-    // clear
-    s->connections.clear();
 
     // notify about stop
     Utils::WriteEventFd(s->stopped_event, 1);
@@ -337,6 +344,9 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock: the server thread must not delete it meanwhile
+    std::lock_guard<typeof(mutex_connections)> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
@@ -350,6 +360,9 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string ta
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock: the server thread must not delete it meanwhile
+    std::lock_guard<typeof(mutex_connections)> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
diff --git a/Server.hpp b/Server.hpp
index ceb2590..784c339 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -54,6 +54,9 @@ namespace DowowNetwork {
 
         // mutex for any operations
         std::recursive_mutex mutex_server;
+        // mutex for the list of connections, which only
+        // the server thread changes
+        std::recursive_mutex mutex_connections;
 
         //! Handler for new connections.
         //! Called right after the polling thread for
-- 
2.43.0


From 481916cbc99b6489078fc00b7f3fbc71435bba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 31/44] fix: the server thread is finished when the server is
 stopped

---
 Server.cpp | 54 +++++++++++++++++++++++++++++++++++++-----------------
 Server.hpp |  8 ++++++++
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 4bf43a3..7aafef3 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -163,9 +163,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // close to_stop fd
     close(s->to_stop_event);
 
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
-
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
         unlink(s->unix_socket_path.c_str());
@@ -174,6 +171,26 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->socket_fd = -1;
     s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop, everything is done
+    Utils::WriteEventFd(s->stopped_event, 1);
+}
+
+void DowowNetwork::Server::StartThread() {
+    // create eventfd
+    to_stop_event = eventfd(0, 0);
+
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
+    // the previous thread is finished, as the server is not started
+    if (server_thread) {
+        server_thread->join();
+        delete server_thread;
+    }
+
+    // start the thread
+    server_thread = new std::thread(ServerThreadFunc, this);
 }
 
 DowowNetwork::Server::Server() {
@@ -237,12 +254,8 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    StartThread();
 
     return true;
 }
@@ -307,12 +320,8 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // start the thread
-    std::thread t(ServerThreadFunc, this);
-    t.detach();
+    StartThread();
 
     return true;
 }
@@ -376,11 +385,16 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
 }
 
 void DowowNetwork::Server::Stop(int timeout) {
-    // check if server is not started
-    if (GetType() == SocketTypeUndefined) return;
+    {
+        // lock: the event must not be closed meanwhile
+        std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
+        // check if server is not started
+        if (GetType() == SocketTypeUndefined) return;
 
-    // make the thread stop
-    Utils::WriteEventFd(to_stop_event, 1);
+        // make the thread stop
+        Utils::WriteEventFd(to_stop_event, 1);
+    }
 
     WaitForStop(timeout);
 }
@@ -397,6 +411,12 @@ DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
+    // join the server thread if it exists
+    if (server_thread) {
+        server_thread->join();
+        delete server_thread;
+    }
+
     // close the stopped eventfd
     close(stopped_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 784c339..a25107a 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -13,6 +13,7 @@
 #include <sys/eventfd.h>
 #include <atomic>
 #include <mutex>
+#include <thread>
 
 #include "Connection.hpp"
 #include "SafeConnection.hpp"
@@ -52,6 +53,10 @@ namespace DowowNetwork {
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
 
+        //! Server thread.
+        //! Joined when the server is started again or destroyed.
+        std::thread *server_thread = 0;
+
         // mutex for any operations
         std::recursive_mutex mutex_server;
         // mutex for the list of connections, which only
@@ -69,6 +74,9 @@ namespace DowowNetwork {
         /// Accept one client and give it the specified ID.
         Connection* AcceptOne(uint32_t id);
 
+        /// Start the server thread.
+        void StartThread();
+
         static void ServerThreadFunc(Server *server);
     public:
         /// Server constructor.
-- 
2.43.0


From 86928c101478c39768cdc5979da9fdfc18d250f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 32/44] fix: lowering the maximum of connections takes effect
 at once

---
 Server.cpp | 17 ++++++++++-------
 Server.hpp |  3 +++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 7aafef3..47f7df2 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -41,6 +41,13 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
     return conn;
 }
 
+bool DowowNetwork::Server::MayAccept() {
+    // the maximum may be changed at any moment
+    int32_t max = max_connections;
+
+    return max < 0 || connections.size() < static_cast<size_t>(max);
+}
+
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
@@ -48,12 +55,7 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // infinite loop
     while (true) {
         // whether should accept new clients
-        bool accept_new = true;
-        if (s->max_connections >= 0) {
-            accept_new =
-                static_cast<int32_t>(s->connections.size()) <
-                s->max_connections;
-        }
+        bool accept_new = s->MayAccept();
 
         pollfd *pollfds = new pollfd[2 + s->connections.size()];
         // server socket
@@ -122,7 +124,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // ***********************
         // check if new connection
         // ***********************
-        if (pollfds[0].revents & POLLIN) {
+        // (the maximum might have been lowered since the poll)
+        if ((pollfds[0].revents & POLLIN) && s->MayAccept()) {
             // accept
             Connection *new_conn = s->AcceptOne(free_conn_id);
             // not an error
diff --git a/Server.hpp b/Server.hpp
index a25107a..98209d3 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -74,6 +74,9 @@ namespace DowowNetwork {
         /// Accept one client and give it the specified ID.
         Connection* AcceptOne(uint32_t id);
 
+        /// May one more client be accepted?
+        bool MayAccept();
+
         /// Start the server thread.
         void StartThread();
 
-- 
2.43.0


From aef0f8104abf904affd78204832ced920a323e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 33/44] fix: raising the maximum of connections lets waiting
 clients in

---
 Server.cpp | 28 ++++++++++++++++++++++------
 Server.hpp |  3 +++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 47f7df2..080c8df 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -57,26 +57,29 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         // whether should accept new clients
         bool accept_new = s->MayAccept();
 
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
+        pollfd *pollfds = new pollfd[3 + s->connections.size()];
         // server socket
         pollfds[0].fd = accept_new ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
         // 'to_stop' event
         pollfds[1].fd = s->to_stop_event;
         pollfds[1].events = POLLIN;
+        // 'update' event
+        pollfds[2].fd = s->update_event;
+        pollfds[2].events = POLLIN;
 
         // ask all connections for a 'closed' event
         size_t i = 0;
         for (auto c : s->connections) {
-            pollfds[2 + i].fd = c->GetStoppedEvent();
-            pollfds[2 + i].events = POLLIN;
+            pollfds[3 + i].fd = c->GetStoppedEvent();
+            pollfds[3 + i].events = POLLIN;
             ++i;
         }
 
         // poll events
         int poll_res = poll(
             pollfds,
-            2 + s->connections.size(),
+            3 + s->connections.size(),
             -1);
         // interrupted, there are no valid results
         if (poll_res == -1) {
@@ -97,13 +100,21 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             break;
         }
 
+        // **********************************
+        // the maximum of connections changed
+        // **********************************
+        if (pollfds[2].revents & POLLIN) {
+            // reset the event, the next poll considers the new maximum
+            Utils::ReadEventFd(s->update_event, 0);
+        }
+
         // ************************************
         // check if some connections are closed
         // ************************************
         std::list<Connection*> deleted_conns;
         i = 0;
         for (auto c : s->connections) {
-            if (pollfds[2 + i++].revents & POLLIN) {
+            if (pollfds[3 + i++].revents & POLLIN) {
                 // call 'disconnected' handler if set
                 ConnectionHandler handler = s->GetDisconnectedHandler();
                 if (handler) {
@@ -198,6 +209,7 @@ void DowowNetwork::Server::StartThread() {
 
 DowowNetwork::Server::Server() {
     stopped_event = eventfd(0, 0);
+    update_event = eventfd(0, 0);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -349,6 +361,9 @@ uint8_t DowowNetwork::Server::GetType() {
 
 void DowowNetwork::Server::SetMaxConnections(int32_t c) {
     max_connections = c;
+
+    // the server thread may be waiting with the old maximum
+    Utils::WriteEventFd(update_event, 1);
 }
 
 int32_t DowowNetwork::Server::GetMaxConnections() {
@@ -420,6 +435,7 @@ DowowNetwork::Server::~Server() {
         delete server_thread;
     }
 
-    // close the stopped eventfd
+    // close the eventfds
     close(stopped_event);
+    close(update_event);
 }
diff --git a/Server.hpp b/Server.hpp
index 98209d3..4ed4fb4 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -52,6 +52,9 @@ namespace DowowNetwork {
         //! 'to_stop' event.
         //! Occurs when the server shutdown is requested.
         int to_stop_event = -1;
+        //! 'update' event.
+        //! Occurs when the maximum of connections is changed.
+        int update_event = -1;
 
         //! Server thread.
         //! Joined when the server is started again or destroyed.
-- 
2.43.0


From 5a1d3606e1cdbe5cf85b141dd2619c7ba371d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 34/44] fix: a copy of a SafeConnection holds a reference of
 its own

---
 SafeConnection.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..210094b 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,11 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            // each wrapper holds its own reference
+            inline SafeConnection(const SafeConnection& other) :
+                SafeConnection(other.c) { }
+            SafeConnection& operator=(const SafeConnection&) = delete;
+
             inline Connection& operator()() {
                 return *c;
             }
-- 
2.43.0


From 4f18ba6f2caa7542640f0e7676a27bc48594a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 35/44] fix: a slow flush is not cut by the silence limit while
 the peer takes the data

---
 Connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 082275d..8a8c916 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -99,6 +99,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
                 // error
                 break;
             }
+            // nothing is received while disconnecting, so the peer
+            // is alive as long as it takes what is left to send
+            if (c->is_disconnecting) {
+                Utils::SetTimerFdTimeout(
+                    c->their_na_timer,
+                    c->their_na_interval);
+                pollfds[3].revents = 0;
+            }
         }
         // *********************
         // our still-alive event
-- 
2.43.0


From 1a863d5f1889c4f48c59641f98b8187265d1f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 36/44] fix: references to ended connections do not hold up the
 server

---
 Server.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 080c8df..3abaa82 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -51,6 +51,8 @@ bool DowowNetwork::Server::MayAccept() {
 void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     // free id for a new connection
     uint32_t free_conn_id = 1;
+    // closed connections that are still referenced by someone
+    std::list<Connection*> ended_conns;
 
     // infinite loop
     while (true) {
@@ -76,11 +78,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             ++i;
         }
 
-        // poll events
+        // poll events (come back for the connections to delete)
         int poll_res = poll(
             pollfds,
             3 + s->connections.size(),
-            -1);
+            ended_conns.empty() ? -1 : 100);
         // interrupted, there are no valid results
         if (poll_res == -1) {
             delete[] pollfds;
@@ -128,9 +130,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         for (auto c : deleted_conns)
             s->connections.remove(c);
         s->mutex_connections.unlock();
-        // delete the connections (as soon as they are not referenced)
-        for (auto c : deleted_conns)
-            delete c;
+        // delete the connections as soon as they are not referenced,
+        // but do not wait for that: the others need to be served
+        ended_conns.splice(ended_conns.end(), deleted_conns);
+        for (auto it = ended_conns.begin(); it != ended_conns.end();) {
+            if ((*it)->GetRefs()) {
+                ++it;
+            } else {
+                delete *it;
+                it = ended_conns.erase(it);
+            }
+        }
 
         // ***********************
         // check if new connection
@@ -160,6 +170,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
     s->mutex_connections.lock();
     open_conns.swap(s->connections);
     s->mutex_connections.unlock();
+    // ... and the ones that are still referenced are gone, too
+    open_conns.splice(open_conns.end(), ended_conns);
 
     // force open connections to close
     // make all the open connections close
-- 
2.43.0


From 4cc8bf94c3458876c7ddd8e0e4d63ec7ef5c4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 37/44] fix: a UNIX server does not start without a path

An empty path, or one that begins with a zero byte, made the server listen on
an abstract address that consisted of uninitialized memory and that nobody
could connect to.
---
 Server.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 3abaa82..5af7e6c 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -232,9 +232,11 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
-    // check if the path does not fit into the address
+    // check if the path is not the one of a file (an address that begins
+    // with a zero byte is not) or does not fit into the address
     sockaddr_un addr;
-    if (path.size() + 1 > sizeof(addr.sun_path))
+    if (path.empty() || path.find('\0') != std::string::npos ||
+        path.size() + 1 > sizeof(addr.sun_path))
         return false;
 
     // try to create a socket
-- 
2.43.0


From 2acf3a3ca5c7e9ef96562c73b3215d0d11584346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 38/44] fix: report the port that the system chose for a server

A server started on port 0 listens on a port of the system's choice but
reported port 0.
---
 Server.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Server.cpp b/Server.cpp
index 5af7e6c..34343e5 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -348,6 +348,13 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     socket_type = SocketTypeTcp;
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
+    // the system has chosen the port
+    socklen_t addr_length = sizeof(addr);
+    if (!port && !getsockname(
+            socket_fd,
+            reinterpret_cast<sockaddr*>(&addr),
+            &addr_length))
+        tcp_socket_port = be16toh(addr.sin_port);
 
     // start the thread
     StartThread();
-- 
2.43.0


From 818f065b830eaa1e9cda5ba91e211834fec65e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 39/44] fix: intervals count from the last transfer, whenever
 they are set

---
 Connection.cpp | 40 ++++++++++++++++++++++++----------------
 Connection.hpp | 10 ++++++++++
 Utils.cpp      | 19 ++++++++++++++++---
 Utils.hpp      | 10 +++++++++-
 4 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 8a8c916..ce0756c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -102,9 +102,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             // nothing is received while disconnecting, so the peer
             // is alive as long as it takes what is left to send
             if (c->is_disconnecting) {
-                Utils::SetTimerFdTimeout(
-                    c->their_na_timer,
-                    c->their_na_interval);
+                c->RestartTheirNaTimer();
                 pollfds[3].revents = 0;
             }
         }
@@ -120,9 +118,7 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             read(pollfds[2].fd, &void_buf, sizeof(void_buf));
 
             // update the timeout
-            Utils::SetTimerFdTimeout(
-                c->our_sa_timer,
-                c->our_sa_interval);
+            c->RestartOurSaTimer();
         }
         // *********************
         // their not-alive event
@@ -373,9 +369,7 @@ bool DowowNetwork::Connection::Receive() {
     }
 
     // update the timeout
-    Utils::SetTimerFdTimeout(
-        their_na_timer,
-        their_na_interval);
+    RestartTheirNaTimer();
 
     // good
     return true;
@@ -437,9 +431,7 @@ bool DowowNetwork::Connection::Send() {
     }
 
     // update the timeout
-    Utils::SetTimerFdTimeout(
-        our_sa_timer,
-        our_sa_interval);
+    RestartOurSaTimer();
 
     // success
     return true;
@@ -518,8 +510,8 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
     // start the timers
-    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
-    Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
+    RestartOurSaTimer();
+    RestartTheirNaTimer();
 
     // not disconnecting
     is_disconnecting = false;
@@ -563,11 +555,26 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
     SetEvenRequestIdsPart(true);
 }
 
+void DowowNetwork::Connection::RestartOurSaTimer() {
+    // lock: the interval may be changed meanwhile
+    MTLock(__mcd, mutex_cd);
+    our_sa_start = Utils::GetTime();
+    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_start, our_sa_interval);
+}
+
+void DowowNetwork::Connection::RestartTheirNaTimer() {
+    // lock: the interval may be changed meanwhile
+    MTLock(__mcd, mutex_cd);
+    their_na_start = Utils::GetTime();
+    Utils::SetTimerFdTimeout(their_na_timer, their_na_start, their_na_interval);
+}
+
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
     // lock: the timer may be closed meanwhile
     MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
+    // the time that has already passed counts
+    Utils::SetTimerFdTimeout(our_sa_timer, our_sa_start, our_sa_interval);
 }
 
 time_t DowowNetwork::Connection::GetOurSaInterval() {
@@ -578,7 +585,8 @@ void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
     // lock: the timer may be closed meanwhile
     MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
-    Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
+    // the time that has already passed counts
+    Utils::SetTimerFdTimeout(their_na_timer, their_na_start, their_na_interval);
 }
 
 time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
diff --git a/Connection.hpp b/Connection.hpp
index ef99a44..e683979 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -130,6 +130,11 @@ namespace DowowNetwork {
         //! The amount of time they are considered disconnected after.
         std::atomic<time_t> their_na_interval{60};
 
+        //! The time something was sent last.
+        timespec our_sa_start{0, 0};
+        //! The time something was received last.
+        timespec their_na_start{0, 0};
+
         //! Amount of links to this connection outside the library.
         uint32_t refs_amount = 0;
 
@@ -147,6 +152,11 @@ namespace DowowNetwork {
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
 
+        //! Our still-alive interval begins now.
+        void RestartOurSaTimer();
+        //! Their not-alive interval begins now.
+        void RestartTheirNaTimer();
+
         //! Wait until there are no references to the Connection.
         void WaitUntilNotNeeded();
 
diff --git a/Utils.cpp b/Utils.cpp
index 3fd3950..7c9297e 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -7,6 +7,7 @@
 #include <sys/timerfd.h>
 #include <time.h>
 #include <chrono>
+#include <limits>
 
 // zero timespan
 const timespec zero_time { 0, 0 };
@@ -54,11 +55,23 @@ uint64_t DowowNetwork::Utils::ReadEventFd(int fd, int timeout) {
     return 0;
 }
 
-void DowowNetwork::Utils::SetTimerFdTimeout(int fd, time_t seconds) {
+timespec DowowNetwork::Utils::GetTime() {
+    timespec now;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    return now;
+}
+
+void DowowNetwork::Utils::SetTimerFdTimeout(int fd, const timespec& start, time_t seconds) {
+    // the timer never expires if the time can not be represented
+    const time_t max_seconds = std::numeric_limits<time_t>::max() - start.tv_sec;
+
     itimerspec new_timer {
         { 0, 0 },               // interval
-        { seconds, 0 }          // expiration
+        {                       // expiration
+            start.tv_sec + (seconds < max_seconds ? seconds : max_seconds),
+            start.tv_nsec
+        }
     };
-    timerfd_settime(fd, 0, &new_timer, 0);
+    timerfd_settime(fd, TFD_TIMER_ABSTIME, &new_timer, 0);
 }
 
diff --git a/Utils.hpp b/Utils.hpp
index df03ac7..5c18c6c 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -48,8 +48,16 @@ namespace DowowNetwork {
         /// Read the eventfd
         uint64_t ReadEventFd(int fd, int timeout);
 
+        /// Get the time of the monotonic clock.
+        timespec GetTime();
+
         /// Set the timer expiration time.
-        void SetTimerFdTimeout(int fd, time_t seconds);
+        /*!
+            \param fd the timer (of the monotonic clock)
+            \param start the time the seconds are counted from
+            \param seconds the timeout in seconds
+        */
+        void SetTimerFdTimeout(int fd, const timespec& start, time_t seconds);
     };
 };
 
-- 
2.43.0


From 513b23185829ab2209319b5c506c5123fcac3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 40/44] fix: session data may be set and read by different
 threads

---
 Connection.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Connection.hpp b/Connection.hpp
index e683979..ef71fbc 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -103,7 +103,7 @@ namespace DowowNetwork {
         bool is_recv_length = true;
 
         //! Session data.
-        void* session_data = 0;
+        std::atomic<void*> session_data{0};
 
         //! The pointer to the default request handler.
         std::atomic<RequestHandler> handler_default{0};
@@ -311,9 +311,8 @@ namespace DowowNetwork {
         }
 
         template<class T> T* GetSessionData() {
-            // not set
-            if (!session_data) return 0;
-            return reinterpret_cast<T*>(session_data);
+            // null if not set
+            return reinterpret_cast<T*>(session_data.load());
         }
 
         virtual ~Connection();
-- 
2.43.0


From e8de357e9f41bee9018ff1cce5d02e849b5b0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 41/44] fix: a server's address may be asked for while it is
 being started

---
 Server.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 34343e5..917c679 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -279,9 +279,9 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
-    // success
-    socket_type = SocketTypeUnix;
+    // success (the path is there before the type tells so)
     unix_socket_path = path;
+    socket_type = SocketTypeUnix;
 
     // start the thread
     StartThread();
@@ -290,6 +290,9 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
 }
 
 std::string DowowNetwork::Server::GetUnixPath() {
+    // lock: the server may be being started
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     return unix_socket_path;
 }
 
@@ -344,8 +347,7 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
-    // success
-    socket_type = SocketTypeTcp;
+    // success (the address is there before the type tells so)
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
     // the system has chosen the port
@@ -355,6 +357,7 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
             reinterpret_cast<sockaddr*>(&addr),
             &addr_length))
         tcp_socket_port = be16toh(addr.sin_port);
+    socket_type = SocketTypeTcp;
 
     // start the thread
     StartThread();
@@ -363,16 +366,22 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
 }
 
 uint32_t DowowNetwork::Server::GetTcpIp() {
+    // lock: the server may be being started
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     return tcp_socket_address;
 }
 
 std::string DowowNetwork::Server::GetTcpIpString() {
     // convert the tcp socket address to string
-    in_addr addr{ htobe32(tcp_socket_address) };
+    in_addr addr{ htobe32(GetTcpIp()) };
     return inet_ntoa(addr);
 }
 
 uint16_t DowowNetwork::Server::GetTcpPort() {
+    // lock: the server may be being started
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     return tcp_socket_port;
 }
 
-- 
2.43.0


From 5984e93f44cced668c0f48b7ca276a898867cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 42/44] fix: threads that connect one client at once do not
 disturb each other

---
 Client.cpp | 10 ++++++++--
 Client.hpp |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index fa43ff3..313bec2 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -138,8 +138,11 @@ DowowNetwork::Client::Client() : Connection() {
 
 
 bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout) {
+    // only one thread at a time connects
+    std::unique_lock<std::mutex> __cm(mutex_connect, std::try_to_lock);
+
     // check if connected or connecting
-    if (IsConnected() || IsConnecting())
+    if (!__cm || IsConnected() || IsConnecting())
         return false;
 
     // temp socket fd
@@ -172,8 +175,11 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 }
 
 bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
+    // only one thread at a time connects
+    std::unique_lock<std::mutex> __cm(mutex_connect, std::try_to_lock);
+
     // check if connected or connecting
-    if (IsConnected() || IsConnecting())
+    if (!__cm || IsConnected() || IsConnecting())
         return false;
 
     // temp socket fd
diff --git a/Client.hpp b/Client.hpp
index ca836d1..af48657 100644
--- a/Client.hpp
+++ b/Client.hpp
@@ -23,6 +23,8 @@ namespace DowowNetwork {
     private:
         // mutex for temp socket
         std::mutex mutex_tsfd;
+        // locked by the thread that connects
+        std::mutex mutex_connect;
 
         // file descriptor for a socket trying to connect to the server
         std::atomic<int> temp_socket_fd{-1};
-- 
2.43.0


From bc7c059814d4b2a7ab2a6f14a57048bbd1bd3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 43/44] fix: running out of descriptors neither hangs nor
 leaves half-made connections

---
 Client.cpp     | 12 +++++++++
 Connection.cpp | 72 ++++++++++++++++++++++++++++++++++----------------
 Server.cpp     | 41 ++++++++++++++++++++++++----
 3 files changed, 97 insertions(+), 28 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 313bec2..bab379e 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -159,6 +159,12 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
 
     // create event
     connect_event = eventfd(0, 0);
+    // no descriptors left
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     std::thread t(TcpThreadFunc, this, ip, port, timeout);
     t.detach();
@@ -196,6 +202,12 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
 
     // create event
     connect_event = eventfd(0, 0);
+    // no descriptors left
+    if (connect_event == -1) {
+        close(temp_socket_fd);
+        temp_socket_fd = -1;
+        return false;
+    }
 
     // create a thread for connection
     std::thread t(UnixThreadFunc, this, socket_path, timeout);
diff --git a/Connection.cpp b/Connection.cpp
index ce0756c..63bfd1c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -200,12 +200,17 @@ void DowowNetwork::Connection::WaitUntilNotNeeded() {
         // unlock the reference counter
         mutex_ra.unlock();
         // wait for the last reference to be gone
-        Utils::SelectRead(not_needed_event, -1);
+        // (look again and again if there are no descriptors left)
+        if (not_needed_event != -1)
+            Utils::SelectRead(not_needed_event, -1);
+        else
+            poll(0, 0, 100);
         // lock the reference counter
         mutex_ra.lock();
 
         // close the event
-        close(not_needed_event);
+        if (not_needed_event != -1)
+            close(not_needed_event);
         not_needed_event = -1;
     }
     // unlock the reference counter
@@ -468,15 +473,6 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     // do nothing if already connected
     if (IsConnected()) return;
 
-    // check if background thread exists
-    if (background_thread) {
-        // just detach it, nothing bad
-        // will happen, because not connected
-        background_thread->detach();
-        // free memory
-        delete background_thread;
-    }
-
     // get the type
     int socket_domain;
     socklen_t len = sizeof(socket_domain);
@@ -488,19 +484,13 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
         &len
     );
 
-    // determine the type
-    switch (socket_domain) {
-        case AF_UNIX: socket_type = SocketTypeUnix; break;
-        case AF_INET: socket_type = SocketTypeTcp; break;
-        // the type is not supported
-        default:
-            return;
-    }
-
-    // reset the stopped event
-    Utils::ReadEventFd(stopped_event, 0);
+    // the type is not supported
+    if (socket_domain != AF_UNIX && socket_domain != AF_INET)
+        return;
 
     // initialize the events
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
     push_event = eventfd(0, 0);
     to_stop_event = eventfd(0, 0);
 
@@ -509,6 +499,35 @@ void DowowNetwork::Connection::InitializeByFD(int socket_fd) {
     our_sa_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
     their_na_timer = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK);
 
+    // not enough descriptors, the connection ends at once
+    if (stopped_event == -1 || push_event == -1 || to_stop_event == -1 ||
+        our_sa_timer == -1 || their_na_timer == -1)
+    {
+        for (int* fd : { &push_event, &to_stop_event, &our_sa_timer, &their_na_timer }) {
+            if (*fd != -1) close(*fd);
+            *fd = -1;
+        }
+        close(socket_fd);
+        if (stopped_event != -1)
+            Utils::WriteEventFd(stopped_event, 1);
+        return;
+    }
+
+    // check if background thread exists
+    if (background_thread) {
+        // just detach it, nothing bad
+        // will happen, because not connected
+        background_thread->detach();
+        // free memory
+        delete background_thread;
+    }
+
+    // determine the type
+    socket_type = socket_domain == AF_UNIX ? SocketTypeUnix : SocketTypeTcp;
+
+    // reset the stopped event
+    Utils::ReadEventFd(stopped_event, 0);
+
     // start the timers
     RestartOurSaTimer();
     RestartTheirNaTimer();
@@ -680,6 +699,12 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
+    // no descriptors left, can not wait
+    if (receive_event == -1) {
+        mutex_rq.unlock();
+        return 0;
+    }
+
     // unlock
     mutex_rq.unlock();
 
@@ -867,5 +892,6 @@ DowowNetwork::Connection::~Connection() {
     }
 
     // close the stopped eventfd
-    close(stopped_event);
+    if (stopped_event != -1)
+        close(stopped_event);
 }
diff --git a/Server.cpp b/Server.cpp
index 917c679..ab4f949 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -28,6 +28,11 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne(uint32_t id) {
 
     // create a connection
     Connection *conn = new Connection(temp_fd);
+    // no descriptors left, it would not be known when it ends
+    if (conn->GetStoppedEvent() == -1) {
+        delete conn;
+        return 0;
+    }
     // assign the id
     conn->id = id;
 
@@ -203,9 +208,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 }
 
 void DowowNetwork::Server::StartThread() {
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
-
     // reset the stopped event
     Utils::ReadEventFd(stopped_event, 0);
 
@@ -279,6 +281,21 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
         return false;
     }
 
+    // create the events, the server could not be stopped without them
+    to_stop_event = eventfd(0, 0);
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+    if (update_event == -1)
+        update_event = eventfd(0, 0);
+    if (to_stop_event == -1 || stopped_event == -1 || update_event == -1) {
+        // no descriptors left
+        if (to_stop_event != -1) close(to_stop_event);
+        to_stop_event = -1;
+        close(socket_fd);
+        unlink(path.c_str());
+        return false;
+    }
+
     // success (the path is there before the type tells so)
     unix_socket_path = path;
     socket_type = SocketTypeUnix;
@@ -347,6 +364,20 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
         return false;
     }
 
+    // create the events, the server could not be stopped without them
+    to_stop_event = eventfd(0, 0);
+    if (stopped_event == -1)
+        stopped_event = eventfd(0, 0);
+    if (update_event == -1)
+        update_event = eventfd(0, 0);
+    if (to_stop_event == -1 || stopped_event == -1 || update_event == -1) {
+        // no descriptors left
+        if (to_stop_event != -1) close(to_stop_event);
+        to_stop_event = -1;
+        close(socket_fd);
+        return false;
+    }
+
     // success (the address is there before the type tells so)
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
@@ -466,6 +497,6 @@ DowowNetwork::Server::~Server() {
     }
 
     // close the eventfds
-    close(stopped_event);
-    close(update_event);
+    if (stopped_event != -1) close(stopped_event);
+    if (update_event != -1) close(update_event);
 }
-- 
2.43.0


From 21e32520913e6bad876703e55b69f2a2399b030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:17 +0000
Subject: [PATCH 44/44] fix: the address of a server that was never started is
 not garbage

---
 Server.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server.hpp b/Server.hpp
index 4ed4fb4..32cfad7 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -42,8 +42,8 @@ namespace DowowNetwork {
         std::string unix_socket_path;
 
         // tcp (host byteorder)
-        uint32_t tcp_socket_address;
-        uint16_t tcp_socket_port;
+        uint32_t tcp_socket_address = 0;
+        uint16_t tcp_socket_port = 0;
 
         //! 'stopped' event.
         //! Occurs when the server is stopped.
-- 
2.43.0

