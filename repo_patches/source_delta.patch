From e2765d12e97e092a4004ec54def7bda35d22f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:05 +0000
Subject: [PATCH 01/79] fix: find message signatures preceded by a partial
 signature

A character breaking a partial match was never considered as the first
character of the signature, so that a message following, for example, a stray
'B' was skipped.
---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..f2a22e7 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,7 +28,8 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // The character that broke the match may itself start a signature
+            got = c == sig[0] ? 1 : 0;
     }
 
     if (errno != 0)
-- 
2.43.0


From cdbb6405376ce0b0e2eeef70cf0e6574c6e4c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:05 +0000
Subject: [PATCH 02/79] fix: detect read errors with ferror() instead of errno
 while looking for messages

A successful read can leave any value in errno, which made valid messages and
clean ends of file be reported as errors.
---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index f2a22e7..5f93677 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -32,7 +32,7 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
             got = c == sig[0] ? 1 : 0;
     }
 
-    if (errno != 0)
+    if (got != sig_len && ferror(fd))
     {
         if (fname)
             error_system::throwf("looking for start of %.4s data in %s:", sig, fname);
-- 
2.43.0


From 7506333814ef8273f84cbd986a0d4fdd1978c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:05 +0000
Subject: [PATCH 03/79] fix: find the end of CREX messages preceded by a
 partial end marker

---
 wreport/bulletin.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5f93677..f77cb96 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -644,6 +644,9 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // This may be part of the actual end marker
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From dcf2291124d802e19bd5fced2bc7a9105b33ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:50 +0000
Subject: [PATCH 04/79] fix: do not read past the end of truncated BUFR data

---
 wreport/bufr/input.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..e392057 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -166,9 +166,6 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
-
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
         // starts at 0x80 and is shifted right by 1 at each read until it
@@ -177,6 +174,8 @@ public:
         {
             if (pbyte_len == 0)
             {
+                if (s4_cursor >= data_len)
+                    parse_error("end of buffer while looking for %u bits of bit-packed data", n);
                 pbyte_len = 8;
                 pbyte = data[s4_cursor++];
             }
@@ -195,13 +194,12 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
-
         for (unsigned i = 0; i < n; i++)
         {
             if (pbyte_len == 0)
             {
+                if (s4_cursor >= data_len)
+                    parse_error("end of buffer while looking for %u bits of bit-packed data", n);
                 pbyte_len = 8;
                 pbyte = data[s4_cursor++];
             }
-- 
2.43.0


From 38c6866b5f38ca003048509687de93ae99bef967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:50 +0000
Subject: [PATCH 05/79] fix: apply C01, C02 and C07 only to numeric elements,
 as the standard requires

---
 wreport/bulletin/interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..7c3fb98 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // C01, C02 and C07 only apply to numeric elements: strings, code tables and
+    // flag tables are never altered by them
+    bool is_numeric = (peek->type == Vartype::Integer || peek->type == Vartype::Decimal)
+        && strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (c_scale_change && is_numeric)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (c_width_change && is_numeric)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (c_scale_ref_width_increase && is_numeric)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From f3b0ecabe313ff3aa251ebab468e93f7b3acabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 06/79] fix: decode all-ones delayed replication factors in
 compressed BUFR messages

Delayed replication factors cannot be missing: 1 in B31000 is one repetition,
also in compressed messages.
---
 wreport/bufr/input.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..88fd6b6 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -318,17 +318,10 @@ void Input::decode_binary(Var& dest)
         dest.setc((char*)(buf.data()));
 }
 
-void Input::decode_number(Var& dest)
+/// Check if the value of a numeric element is encoded as missing
+static bool is_missing(Varinfo info, uint32_t val)
 {
-    Varinfo info = dest.info();
-
-    uint32_t val = get_bits(info->bit_len);
-
-    // TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, val);
-
-    // Check if there are bits which are not 1 (that is, if the value is present)
     // In case of delayed replications, there is no missing value
-    bool missing = false;
     if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
         switch (WR_VAR_Y(info->code))
         {
@@ -337,12 +330,21 @@ void Input::decode_number(Var& dest)
             case 2:
             case 11:
             case 12:
-                break;
-            default:
-                missing = (val == all_ones(info->bit_len));
+                return false;
         }
-    else
-        missing = (val == all_ones(info->bit_len));
+    return val == all_ones(info->bit_len);
+}
+
+void Input::decode_number(Var& dest)
+{
+    Varinfo info = dest.info();
+
+    uint32_t val = get_bits(info->bit_len);
+
+    // TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, val);
+
+    // Check if there are bits which are not 1 (that is, if the value is present)
+    bool missing = is_missing(info, val);
 
     // TRACE("datasec:decode_b_num:len %d val %d info-len %d info-desc %s\n", info->bit_len, val, info->bit_len, info->desc);
 
@@ -469,7 +471,7 @@ void Input::decode_compressed_semantic_number(Var& dest, unsigned)
     //TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, base);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    bool missing = (base == all_ones(info->bit_len));
+    bool missing = is_missing(info, base);
 
     //TRACE("datasec:decode_b_num:len %d base %d info-len %d info-desc %s\n", info->bit_len, base, info->bit_len, info->desc);
 
-- 
2.43.0


From d787f762b52ecf7e5f6b85931fb2aee99a0c01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:20 +0000
Subject: [PATCH 07/79] fix: allow the same bitmap or width with different
 descriptors in a message

A bitmap used both for quality information and substituted values, and two
local descriptors of the same width, were rejected.
---
 wreport/tables.cc | 22 ++++++++--------------
 wreport/tables.h  |  4 ++--
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..cfc55fe 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,13 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    // The same bitmap can be used with different operators in the same message
+    auto key = make_pair(code, bitmap);
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +109,13 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    // Different local descriptors can have the same width
+    auto key = make_pair(code, bit_len);
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
diff --git a/wreport/tables.h b/wreport/tables.h
index 643f6d6..91445fc 100644
--- a/wreport/tables.h
+++ b/wreport/tables.h
@@ -18,11 +18,11 @@ struct Tables
     /// DTable used to lookup D table codes
     const DTable* dtable;
     /// Storage for temporary Varinfos for bitmaps
-    mutable std::map<std::string, _Varinfo> bitmap_table;
+    mutable std::map<std::pair<Varcode, std::string>, _Varinfo> bitmap_table;
     /// Storage for temporary Varinfos for arbitrary character data
     mutable std::map<Varcode, _Varinfo> chardata_table;
     /// Storage for temporary Varinfos for C06 unknown local descriptors
-    mutable std::map<unsigned, _Varinfo> unknown_table;
+    mutable std::map<std::pair<Varcode, unsigned>, _Varinfo> unknown_table;
 
     Tables();
     Tables(const Tables&) = delete;
-- 
2.43.0


From f37ea1683402804898e8899d84f483dcf34658bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 08/79] fix: handle bitmaps with no data present, and bitmaps
 that fail to be defined

A bitmap with no bits set stayed active and was then iterated past its end.
When defining a bitmap failed, the previous one was deleted twice.
---
 wreport/bulletin/bitmaps.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..3812d23 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -95,7 +95,15 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
     delete current;
+    current = nullptr;
     current = new Bitmap(bitmap, subset, anchor_point);
+    // If no data is present, there is nothing to wait for
+    if (current->eob())
+    {
+        delete last;
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::reuse_last()
@@ -106,7 +114,13 @@ void Bitmaps::reuse_last()
     delete current;
     current = last;
     last = nullptr;
-    if (current) current->reuse();
+    if (!current) return;
+    current->reuse();
+    if (current->eob())
+    {
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::discard_last()
-- 
2.43.0


From 0f38f13c7acdead22904e61bcf822edba8686654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:40 +0000
Subject: [PATCH 09/79] fix: encode and decode C03 reference value changes as
 the standard requires

C03000 cancels the changes. A new reference value of 0 can be encoded. The
encoder looks for the new reference value in the values that follow, since
those before the operator still have the old one.
---
 wreport/bufr_encoder.cc           | 10 +++++-----
 wreport/bulletin/dds-validator.cc | 10 +++++-----
 wreport/bulletin/interpreter.cc   |  6 ++++++
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..cd3dfdd 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -99,13 +99,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
-        // is its bit_ref
+        // Scan the rest of the subset looking for a variables with the given code,
+        // to see what is its bit_ref
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (unsigned pos = current_var; pos < current_subset.size(); ++pos)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[pos].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
@@ -132,7 +132,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             encoded |= 1 << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..3b54fc3 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -80,13 +80,13 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
-    // Scan the subset looking for a variables with the given code, to see what
-    // is its bit_ref
+    // Scan the rest of the subset looking for a variables with the given code,
+    // to see what is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (unsigned pos = current_var; pos < current_subset.size(); ++pos)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[pos].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
@@ -112,7 +112,7 @@ void DDSValidator::define_c03_refval_override(Varcode code)
         encoded |= 1 << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 7c3fb98..4afe510 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -211,6 +211,12 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                TRACE("Cancel reference value changes\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
+            } else if (bits > 32) {
+                error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 03d9bf341bb269d19c133083cbbb11db9a42b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:48 +0000
Subject: [PATCH 10/79] fix: report an error for C07 increases too large to
 represent

They were looked up past the end of a table of powers of 10.
---
 wreport/bulletin/interpreter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 4afe510..944d77d 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -116,6 +116,8 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
         };
+        if (c_scale_ref_width_increase > 9)
+            error_unimplemented::throwf("C07 modifier wants a scale increase of %d but only at most 9 is supported", c_scale_ref_width_increase);
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-- 
2.43.0


From d63e02f0871fdaa110f775b07ac5b4803386065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:23 +0000
Subject: [PATCH 11/79] fix: encode missing values longer than 32 bits as all
 ones

A missing string was encoded as ones followed by zeros.
---
 wreport/buffers/bufr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..929cb99 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,7 +69,11 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
-        add_bits(0xffffffff, len_bits);
+        // add_bits can only append up to 32 bits at a time
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
+        if (len_bits)
+            add_bits(0xffffffff, len_bits);
     }
 
     /// Append a string variable
-- 
2.43.0


From 3ac0269cae1c15e7a5e89ae92d40754bd3f1dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:37 +0000
Subject: [PATCH 12/79] fix: report an error for malformed CREX data descriptor
 sections

The decoder looped forever on an unexpected character or on a truncated message.
---
 wreport/crex_decoder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..0c263e7 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -104,6 +104,11 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+        {
+            in.check_eof("end of data descriptor section");
+            in.parse_error("unexpected data in data descriptor section");
+        }
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From 633c2b434b8975b3be2970c6c5381c0fe0de917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:39 +0000
Subject: [PATCH 13/79] fix: decode CREX messages with more than one subset or
 with an optional section

The line end after each subset was read as data, and the end of the optional
section was not skipped.
---
 wreport/crex_decoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 0c263e7..fec7b4b 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -204,6 +204,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+        in.skip_spaces();
     }
     in.skip_spaces();
 
@@ -214,7 +215,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From ed484d31feff059c70e2928cce9ebc40e0496016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:42 +0000
Subject: [PATCH 14/79] fix: decode CREX delayed replication factors as the
 encoder writes them

They are 4 digits long whatever the table says. A missing or negative one was
used as a count of about 4 billion.
---
 wreport/crex_decoder.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index fec7b4b..83b2ce2 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -134,7 +134,7 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    uint32_t read_variable(Varinfo info, unsigned len)
     {
         uint32_t res = 0xffffffff;
 
@@ -144,7 +144,7 @@ struct CrexParser : public bulletin::Interpreter
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -170,12 +170,26 @@ struct CrexParser : public bulletin::Interpreter
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        unsigned len = info->len;
+        switch (info->code)
+        {
+            case WR_VAR(0, 31, 1):
+            case WR_VAR(0, 31, 2):
+            case WR_VAR(0, 31, 11):
+            case WR_VAR(0, 31, 12):
+                // These are always 4 digits long in CREX data
+                len = 4;
+                break;
+        }
+        uint32_t count = read_variable(info, len);
+        if (static_cast<int32_t>(count) < 0)
+            in.parse_error("missing or negative delayed replication factor");
+        return count;
     }
 };
 
-- 
2.43.0


From 63dab14a03420cb0976c62d98e04bc6adf8683d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 15/79] fix: encode CREX check digits when requested, also for
 missing values

The bulletin's setting was ignored, and missing values were not separated from
the ones before.
---
 wreport/buffers/crex.cc | 2 ++
 wreport/crex_encoder.cc | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..fba7ffe 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -197,6 +197,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..678d5a7 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -77,7 +77,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
@@ -131,6 +131,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
-- 
2.43.0


From a0d95fb2e8e5f377387e2c02e626820908500a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:10 +0000
Subject: [PATCH 16/79] fix: encode CREX data categories and subcategories
 above 127

They were written as negative numbers, which are not valid in CREX.
---
 wreport/crex_encoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 678d5a7..06837a9 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -80,13 +80,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From 31976c5b7ab3f9582b55c7dfdbe83b27da4757ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:29 +0000
Subject: [PATCH 17/79] fix: decode CREX strings that begin with a slash

They were decoded as missing values.
---
 wreport/crex_decoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 83b2ce2..20d0be3 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -147,7 +147,12 @@ struct CrexParser : public bulletin::Interpreter
         in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
-        if (*d_start != '/')
+        bool missing = *d_start == '/';
+        if (info->type == Vartype::String)
+            // Text can begin with a slash: it is missing if there is nothing else
+            for (const char* c = d_start; missing && c < d_end; ++c)
+                missing = *c == '/';
+        if (!missing)
         {
             if (info->type == Vartype::String)
             {
-- 
2.43.0


From 59ba64a97318bbcf8a86d7c51061ed174c3d2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 18/79] fix: print the structure of bulletins whose bitmaps
 have no data present

---
 wreport/bulletin/dds-printer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..7b36a1d 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -71,6 +71,7 @@ void DDSPrinter::encode_var(Varinfo info, const Var& var)
 
 void DDSPrinter::define_bitmap(unsigned bitmap_size)
 {
+    const Var& bitmap = peek_var();
     UncompressedEncoder::define_bitmap(bitmap_size);
 #if 0
     if (delayed_code)
@@ -81,8 +82,8 @@ void DDSPrinter::define_bitmap(unsigned bitmap_size)
         var.print(out);
     }
 #endif
-    print_context(bitmaps.current->bitmap.info(), 0);
-    bitmaps.current->bitmap.print(out);
+    print_context(bitmap.info(), 0);
+    bitmap.print(out);
 }
 
 void DDSPrinter::define_raw_character_data(Varcode code)
-- 
2.43.0


From b4d26d3ffec2cdbcc0d6eb2ce8d204aed90a29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 19/79] fix: do not read past the end of opaque binary values

---
 wreport/var.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..11f54ac 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -211,9 +211,6 @@ void Var::copy_value(const Var& var)
     switch (m_info->type)
     {
         case Vartype::Binary:
-            allocate();
-            memcpy(m_value.c, var.m_value.c, m_info->len);
-            break;
         case Vartype::String:
             allocate();
             memcpy(m_value.c, var.m_value.c, m_info->len + 1);
@@ -392,8 +389,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -490,6 +488,8 @@ void Var::assign_b_checked(const uint8_t* val, unsigned size)
         if (m_info->bit_len % 8)
             m_value.c[m_info->len - 1] &= static_cast<unsigned char>((1 << (m_info->bit_len % 8)) - 1);
     }
+    // Let enqc always return a zero-terminated string
+    m_value.c[m_info->len] = 0;
     m_isset = true;
 }
 
-- 
2.43.0


From 7b6eb97b3017969df1a397c4ec1aa27b6d9d98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:17 +0000
Subject: [PATCH 20/79] fix: report an error for BUFR messages that advertise
 no data subsets

---
 wreport/bufr/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..ef9a15f 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -187,6 +187,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (expected_subsets == 0)
+        in.parse_error(3, 4, "the message advertises no data subsets");
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From 2c795dded61d98050f0bb6761d8f9be4151efd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 21/79] fix: do not mix old and new tables when loading tables
 fails

---
 wreport/tables.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index cfc55fe..f644598 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -59,8 +59,12 @@ void Tables::load_bufr(const BufrTableID& id)
                 id.originating_centre, id.originating_subcentre,
                 id.master_table_number, id.master_table_version_number,
                 id.master_table_version_number_local);
-    btable = Vartable::load_bufr(t->btable_pathname);
-    dtable = DTable::load_bufr(t->dtable_pathname);
+    // Load both before changing anything, so that if loading fails we do not
+    // end up with half of a table and half of another
+    auto new_btable = Vartable::load_bufr(t->btable_pathname);
+    auto new_dtable = DTable::load_bufr(t->dtable_pathname);
+    btable = new_btable;
+    dtable = new_dtable;
 }
 
 void Tables::load_crex(const CrexTableID& id)
@@ -72,8 +76,12 @@ void Tables::load_crex(const CrexTableID& id)
                 id.originating_centre, id.originating_subcentre,
                 id.master_table_number, id.master_table_version_number,
                 id.master_table_version_number_local, id.master_table_version_number_bufr);
-    btable = Vartable::load_crex(t->btable_pathname);
-    dtable = DTable::load_crex(t->dtable_pathname);
+    // Load both before changing anything, so that if loading fails we do not
+    // end up with half of a table and half of another
+    auto new_btable = Vartable::load_crex(t->btable_pathname);
+    auto new_dtable = DTable::load_crex(t->dtable_pathname);
+    btable = new_btable;
+    dtable = new_dtable;
 }
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
-- 
2.43.0


From ff356c21e2d3316cd640680b14e944f266c27d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 22/79] fix: zero-terminate descriptions and units that fill
 their column in table files

---
 wreport/vartable.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..ae22432 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -350,13 +350,15 @@ struct BufrVartable : public VartableBase
             // Read the description
             memcpy(entry->desc, line+8, 64);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            entry->desc[63] = 0;
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            entry->unit[23] = 0;
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
@@ -431,13 +433,15 @@ struct CrexVartable : public VartableBase
             // Read the description
             memcpy(entry->desc, line+8, 64);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            entry->desc[63] = 0;
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            entry->unit[23] = 0;
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
-- 
2.43.0


From 35fc279e87b077a3ca1bccceff1ee939f83a4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 23/79] fix: report read errors when loading tables

---
 wreport/dtable.cc   | 3 +++
 wreport/vartable.cc | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..404de34 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -113,6 +113,9 @@ struct DTableBase : public DTable
                 error_parse::throwf(pathname.c_str(), line_no, "unrecognized line: \"%s\"", line);
         }
 
+        if (ferror(in))
+            error_system::throwf("reading D table file %s", pathname.c_str());
+
         // Check that we actually read something
         if (varcodes.empty())
             throw error_parse(pathname.c_str(), line_no, "no entries found in the file");
diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index ae22432..565fa54 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -395,6 +395,9 @@ struct BufrVartable : public VartableBase
                     bcode, entry->len, entry->scale, entry->type, entry->desc);
             */
         }
+
+        if (ferror(in))
+            error_system::throwf("cannot read BUFR table file %s", pathname.c_str());
     }
 };
 
@@ -470,6 +473,9 @@ struct CrexVartable : public VartableBase
                     bcode, entry->len, entry->scale, entry->type, entry->desc);
             */
         }
+
+        if (ferror(in))
+            error_system::throwf("cannot read CREX table file %s", pathname.c_str());
     }
 };
 
-- 
2.43.0


From 318deca77b1d7b4e61a5fbfe73df7cc311504e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 24/79] fix: do not keep an incomplete list of table
 directories after running out of memory

---
 wreport/internals/tabledir.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..c9c61ce 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -6,6 +6,7 @@
 #include "wreport/utils/sys.h"
 #include "config.h"
 #include <map>
+#include <memory>
 #include <cstddef>
 #include <cstring>
 #include <cstdio>
@@ -467,8 +468,9 @@ Tabledirs& Tabledirs::get()
     static Tabledirs* default_tabledir = 0;
     if (!default_tabledir)
     {
-        default_tabledir = new Tabledirs();
-        default_tabledir->add_default_directories();
+        std::unique_ptr<Tabledirs> new_tabledir(new Tabledirs());
+        new_tabledir->add_default_directories();
+        default_tabledir = new_tabledir.release();
     }
     return *default_tabledir;
 }
-- 
2.43.0


From b6457857c6367838841e11b2e878b316e327ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 25/79] fix: do not leak descriptors when a directory cannot be
 read

---
 wreport/utils/sys.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index cc6c8aa..b4dff1f 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -591,7 +591,12 @@ DIR* Path::fdopendir()
 
     DIR* res = ::fdopendir(fd1);
     if (!res)
+    {
+        int saved_errno = errno;
+        ::close(fd1);
+        errno = saved_errno;
         throw_error("cannot fdopendir");
+    }
 
     return res;
 }
@@ -718,7 +723,12 @@ Path::iterator::iterator(Path& dir_)
     : path(&dir_)
 {
     dir = dir_.fdopendir();
-    operator++();
+    try {
+        operator++();
+    } catch (...) {
+        closedir(dir);
+        throw;
+    }
 }
 
 Path::iterator::~iterator()
-- 
2.43.0


From 228b693e45fffa0d8cf0e1022012bcdb9b6519f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 26/79] fix: do not terminate or leak when running out of
 memory while reporting an error

---
 wreport/error.cc | 7 ++++---
 wreport/error.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/wreport/error.cc b/wreport/error.cc
index cad7678..aa37bf1 100644
--- a/wreport/error.cc
+++ b/wreport/error.cc
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <cstdarg>
 #include <errno.h>
+#include <memory>
 #include <regex.h>
 #include <sstream>
 #include "config.h"
@@ -64,8 +65,8 @@ const char* error::strerror(ErrorCode code)
            cmsg = nullptr; \
         va_end(ap); \
         /* Convert to string */ \
+        std::unique_ptr<char, decltype(&free)> owned(cmsg, free); \
         std::string msg(cmsg ? cmsg : fmt); \
-        free(cmsg); \
         throw errorname(msg); \
     }
 
@@ -111,8 +112,8 @@ void error_parse::throwf(const char* file, int line, const char* fmt, ...)
     va_end(ap);
 
     // Convert to string
+    std::unique_ptr<char, decltype(&free)> owned(cmsg, free);
     std::string msg(cmsg ? cmsg : fmt);
-    free(cmsg);
     throw error_parse(file, line, msg);
 }
 
@@ -139,8 +140,8 @@ void error_regexp::throwf(int code, void* re, const char* fmt, ...)
     va_end(ap);
 
     // Convert to string
+    std::unique_ptr<char, decltype(&free)> owned(cmsg, free);
     std::string msg(cmsg ? cmsg : fmt);
-    free(cmsg);
     throw error_regexp(code, re, msg);
 }
 
diff --git a/wreport/error.h b/wreport/error.h
index a2eda89..14e8962 100644
--- a/wreport/error.h
+++ b/wreport/error.h
@@ -104,7 +104,7 @@ public:
     std::string msg;
 
     /// @param msg error message
-    StringBase(const std::string& msg) noexcept : msg(msg) {}
+    StringBase(const std::string& msg) : msg(msg) {}
 
     ErrorCode code() const noexcept override { return ERROR_CODE; }
 
-- 
2.43.0


From b301d202c8d7095524a104d54bcb30611cbf7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:01 +0000
Subject: [PATCH 27/79] fix: do not leak tables when a table directory cannot
 be scanned

---
 wreport/internals/tabledir.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index c9c61ce..0bc164f 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -54,7 +54,13 @@ void CrexTable::print_id(FILE* out) const
 Dir::Dir(const std::string& pathname)
     : pathname(pathname), mtime(0)
 {
-    refresh();
+    try {
+        refresh();
+    } catch (...) {
+        for (auto t: tables)
+            delete t;
+        throw;
+    }
 }
 
 Dir::~Dir()
-- 
2.43.0


From 8f163c5b549e35df9322e676cc2e9698ca5dd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 28/79] fix: do not leak the value if constructing a Var fails

---
 wreport/var.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 11f54ac..2d9071d 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -102,31 +102,31 @@ Var::Var(Varinfo info)
 }
 
 Var::Var(Varinfo info, int val)
-    : m_info(info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(info)
 {
     seti(val);
 }
 
 Var::Var(Varinfo info, double val)
-    : m_info(info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(info)
 {
     setd(val);
 }
 
 Var::Var(Varinfo info, const char* val)
-    : m_info(info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(info)
 {
     setc(val);
 }
 
 Var::Var(Varinfo info, const std::string& val)
-    : m_info(info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(info)
 {
     sets(val);
 }
 
 Var::Var(const Var& var)
-    : m_info(var.m_info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(var.m_info)
 {
     copy_value(var);
     setattrs(var);
@@ -140,7 +140,7 @@ Var::Var(Var&& var)
 }
 
 Var::Var(Varinfo info, const Var& var)
-    : m_info(info), m_isset(false), m_value{}, m_attrs(nullptr)
+    : Var(info)
 {
     setval(var);
     setattrs(var);
-- 
2.43.0


From d1823c3fad0a523867a4c67727bfd035f80aa679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 29/79] fix: assigning to a Var of a different type or length

---
 wreport/var.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 2d9071d..25f0961 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -150,20 +150,28 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // Do everything that can fail on a copy: the variable can be of a
+    // different type or length, and it must still be valid in case of errors
+    Var copy(var);
+    return *this = move(copy);
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
+    switch (m_info->type)
+    {
+        case Vartype::Binary:
+        case Vartype::String:
+            delete[] m_value.c;
+            break;
+        case Vartype::Integer:
+        case Vartype::Decimal:
+            break;
+    }
+    // The variable can be of a different type or length
+    m_info = var.m_info;
+    m_value = {};
     move_value(var);
     delete m_attrs;
     m_attrs = var.m_attrs;
@@ -205,8 +213,8 @@ void Var::allocate()
 
 void Var::copy_value(const Var& var)
 {
-    m_isset = var.m_isset;
-    if (!m_isset) return;
+    m_isset = false;
+    if (!var.m_isset) return;
 
     switch (m_info->type)
     {
@@ -220,6 +228,7 @@ void Var::copy_value(const Var& var)
             m_value.i = var.m_value.i;
             break;
     }
+    m_isset = true;
 }
 
 void Var::move_value(Var& var)
-- 
2.43.0


From d19485622213eeac5b8c638910790a71d6f7da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 30/79] fix: comparing the values of variables of different
 types

---
 wreport/var.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 25f0961..58a7495 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -258,11 +258,16 @@ bool Var::value_equals(const Var& var) const
     if (!m_isset && !var.m_isset) return true;
     if (!m_isset || !var.m_isset) return false;
 
+    // The values of variables of different types are stored differently
+    auto is_number = [](Varinfo info) { return info->type == Vartype::Integer || info->type == Vartype::Decimal; };
+    if (m_info->type != var.m_info->type && !(is_number(m_info) && is_number(var.m_info)))
+        return false;
+
     // Compare value
     switch (m_info->type)
     {
         case Vartype::Binary:
-            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
+            return m_info->len == var.m_info->len && memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
             return strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
-- 
2.43.0


From 474f53e964e87278188ec945201048cd8076a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 31/79] fix: read past the end of the source when setting a
 binary value from another variable

---
 wreport/var.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 58a7495..698f4e2 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -704,6 +704,7 @@ const Var* Var::next_attr() const
 
 void Var::setval(const Var& src)
 {
+    if (&src == this) return;
     if (!src.isset())
     {
         unset();
@@ -712,7 +713,7 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary: sets(src.enqs()); break;
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From c98c7704830653e0f316cf354600e4ac2d7503a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 32/79] fix: setting the attributes of a variable from itself
 lost them

---
 wreport/var.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 698f4e2..eba1c1c 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -724,9 +724,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
+    // Copy before deleting: src can be this same variable
+    Var* new_attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
     clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    m_attrs = new_attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From 0694a42c90990146ee21de9f42d30b1a456b9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 33/79] fix: Var::enqc leaked a buffer for every thread

---
 wreport/var.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index eba1c1c..c7a63d7 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -370,7 +370,7 @@ static inline std::string int32_to_stdstr(int32_t val)
 const char* Var::enqc() const
 {
     static const unsigned buf_size = 20;
-    static thread_local char* tl_buf = 0;
+    static thread_local char tl_buf[buf_size];
 
     if (!m_isset)
         error_notfound::throwf("enqc: %01d%02d%03d (%s) is not defined",
@@ -385,8 +385,6 @@ const char* Var::enqc() const
         case Vartype::Decimal: {
             // Access tl_buf just once, to prevent a lot of calls to __tls_get_addr
             char* buf = tl_buf;
-            if (!buf) buf = tl_buf = new char[buf_size];
-
             int32_to_str(m_value.i, buf, buf_size);
             return buf;
         }
-- 
2.43.0


From bbc948915b9eacd063d167ae3e845dfffea0c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 34/79] fix: Var::seta(Var&&) copied instead of moving

---
 wreport/var.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index c7a63d7..8216e03 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -649,7 +649,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
-- 
2.43.0


From 45bfad4ec14e4e43e7124ea012231c579c8c3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 35/79] fix: Subset::append_dpb with a bitmap longer than the
 subset

---
 wreport/subset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..8d61185 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -95,6 +95,9 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
 
+        if (src == this->size())
+            break;
+
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
             bitmap[dst] = '-';
@@ -104,6 +107,9 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
 			++count;
 		}
 	}
+	// There is no data for the rest of the bitmap
+	for ( ; dst < size; ++dst)
+		bitmap[dst] = '-';
 	bitmap[size] = 0;
 
 	// Append the bitmap to the message
-- 
2.43.0


From c08866973e45f296e08e7c060efcead12eff5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:19 +0000
Subject: [PATCH 36/79] fix: Subset move assignment copied instead of moving

---
 wreport/subset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index 8d61185..9d46647 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -21,7 +21,7 @@ Subset::~Subset() {}
 Subset& Subset::operator=(Subset&& s)
 {
     if (this == &s) return *this;
-    std::vector<Var>::operator=(s);
+    std::vector<Var>::operator=(move(s));
     tables = s.tables;
     return *this;
 }
-- 
2.43.0


From b03c8b98ee51a597fe96aceeb8c35756c6143a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 37/79] fix: values that do not fit in 32 bits were stored as
 different values

---
 wreport/var.cc | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 8216e03..cf0a2d9 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -75,12 +75,21 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+// Returns false if the value does not fit
+bool str_to_int32(const char *str, int32_t& res)
 {
-    unsigned val = 0;
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
     while (*str)
+    {
         val = val * 10 + (*str++ - '0');
-    return val;
+        if (val > -(int64_t)INT32_MIN) return false;
+    }
+    if (negative) val = -val;
+    if (val > INT32_MAX) return false;
+    res = static_cast<int32_t>(val);
+    return true;
 }
 
 bool isnumber(const char *str)
@@ -546,7 +555,15 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+        {
+            double rounded = round(val);
+            if (rounded >= INT32_MIN && rounded <= INT32_MAX)
+                assign_i_checked(static_cast<int>(rounded));
+            else
+                assign_d_checked(rounded);
+            break;
+        }
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
@@ -559,13 +576,16 @@ void Var::setc(const char* val)
         case Vartype::Binary: assign_b_checked((const uint8_t*)val, m_info->len); break;
         case Vartype::Decimal:
         case Vartype::Integer:
+        {
+            int32_t ival;
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
+            else if (str_to_int32(val, ival))
+                assign_i_checked(ival);
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_d_checked(strtod(val, nullptr) / std::pow(10, m_info->scale));
             break;
+        }
     }
 }
 
@@ -592,12 +612,7 @@ void Var::sets(const std::string& val)
         case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(val.c_str()), static_cast<unsigned>(val.size())); break;
         case Vartype::Integer:
         case Vartype::Decimal:
-            if (!isnumber(val.c_str()))
-                unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
-            else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+            setc(val.c_str());
             break;
     }
 }
-- 
2.43.0


From 6dbd8ef0587bc9b9ac59352a85d8755061f23f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 38/79] fix: Var::format cut long numbers

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index cf0a2d9..75a9652 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -763,8 +763,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[64];
+            snprintf(buf, sizeof(buf), "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From 428f84ae5f7254b4d30eb786a4d595bc42cd00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:13 +0000
Subject: [PATCH 39/79] fix: race between threads in notes::log() when notes
 are not collected

---
 wreport/notes.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 253dd88..190732a 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -17,8 +17,6 @@ struct null_streambuf : public std::streambuf
 };
 
 thread_local ostream* target = 0;
-null_streambuf* null_sb = 0;
-ostream* null_stream = 0;
 
 void set_target(std::ostream& out)
 {
@@ -40,13 +38,11 @@ std::ostream& log() throw ()
     // If there is a target, use it
     if (target) return *target;
 
-    // If there is no target, return an ostream that discards all data
-    if (!null_sb)
-    {
-        null_sb = new null_streambuf;
-        null_stream = new ostream(null_sb);
-    }
-    return *null_stream;
+    // If there is no target, return an ostream that discards all data. Each
+    // thread has its own
+    static thread_local null_streambuf null_sb;
+    static thread_local ostream null_stream(&null_sb);
+    return null_stream;
 }
 
 void logf(const char* fmt, ...)
-- 
2.43.0


From 6545bfffee4a127f334e3dbf5745bf921028e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 40/79] fix: wrep -p takes an argument, wrep -h does not

---
 src/wrep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index c1f8ede..38c8f6a 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -89,10 +89,10 @@ int main(int argc, char* argv[])
         int option_index = 0;
 
 #ifdef HAS_GETOPT_LONG
-        int c = getopt_long(argc, argv, "cdsDpivtUTFLh:",
+        int c = getopt_long(argc, argv, "cdsDp:ivtUTFLh",
                 long_options, &option_index);
 #else
-        int c = getopt(argc, argv, "cdsDpivtUTFLh:");
+        int c = getopt(argc, argv, "cdsDp:ivtUTFLh");
 #endif
 
         // Detect the end of the options
-- 
2.43.0


From bbc9965620a920a6c18b52fe83f98b8315601a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 41/79] fix: wrep exits with an error if its output cannot be
 written

---
 src/wrep.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wrep.cc b/src/wrep.cc
index 38c8f6a..13cef2f 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -175,6 +175,13 @@ int main(int argc, char* argv[])
         }
 
         handler->done();
+
+        // Do not report success if some of the output was lost
+        if (fflush(stdout) == EOF || ferror(stdout))
+        {
+            fprintf(stderr, "cannot write all of the output\n");
+            return 1;
+        }
     } catch (std::exception& e) {
         fprintf(stderr, "%s\n", e.what());
         return 1;
-- 
2.43.0


From 0f5fcef8a194be9095ef0ac4163fb878c2195375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 42/79] fix: do not close a file descriptor twice if closing it
 fails

---
 wreport/utils/sys.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index b4dff1f..79f29c3 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -293,9 +293,12 @@ bool FileDescriptor::is_open() const { return fd != -1; }
 void FileDescriptor::close()
 {
     if (fd == -1) return;
-    if (::close(fd) == -1)
-        throw_error("cannot close");
+    // The file descriptor is released even if close fails: closing it again
+    // could close a file that someone else has opened in the meantime
+    int old_fd = fd;
     fd = -1;
+    if (::close(old_fd) == -1)
+        throw_error("cannot close");
 }
 
 void FileDescriptor::fstat(struct stat& st)
-- 
2.43.0


From 76ef3fbb43bbbaeeaabe38a259f092daef942d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 43/79] fix: do not leak the temporary file if File::mkstemp
 runs out of memory

---
 wreport/utils/sys.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 79f29c3..44e8903 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -991,7 +991,13 @@ File File::mkstemp(char* pathname_template)
     int fd = ::mkstemp(pathname_template);
     if (fd < 0)
         throw std::system_error(errno, std::system_category(), "cannot create temporary file "s + pathname_template);
-    return File(fd, pathname_template);
+    try {
+        return File(fd, pathname_template);
+    } catch (...) {
+        ::close(fd);
+        ::unlink(pathname_template);
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 115c9d1704e38ebaa1c42df1884ecf526efdd077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 44/79] fix: write_file_atomically does not leave temporary
 files behind on errors

---
 wreport/utils/sys.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 44e8903..32d0a4b 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -1134,18 +1134,23 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
+    try {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
 
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
 
-    out.write_all_or_retry(data, size);
-    out.close();
+        out.write_all_or_retry(data, size);
+        out.close();
 
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    } catch (...) {
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 6a05057b7a055255671b0ae2c300cd900620492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 45/79] fix: write_file_atomically does not change the umask of
 other threads

---
 wreport/utils/sys.cc | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 32d0a4b..004d7ee 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -1,5 +1,6 @@
 #include "sys.h"
 #include "string.h"
+#include <atomic>
 #include <cstddef>
 #include <cstring>
 #include <exception>
@@ -1110,6 +1111,33 @@ void write_file(const std::filesystem::path& file, const void* data, size_t size
     out.close();
 }
 
+namespace {
+
+/**
+ * Create a temporary file next to the given one.
+ *
+ * Unlike with mkstemp, it is open(2) that sets the permissions honoring umask:
+ * the umask can only be read by changing it, and that affects all threads.
+ */
+File create_temporary(const std::filesystem::path& file, mode_t mode)
+{
+    static std::atomic<unsigned> sequence(0);
+    while (true)
+    {
+        File res(std::filesystem::path(file.native() + "." + std::to_string(::getpid()) + "." + std::to_string(sequence++)));
+        try {
+            res.open(O_WRONLY | O_CREAT | O_EXCL, mode);
+            return res;
+        } catch (std::system_error& e) {
+            // Try the next name
+            if (e.code().value() != EEXIST)
+                throw;
+        }
+    }
+}
+
+}
+
 void write_file_atomically(const char* file, const std::string& data, mode_t mode)
 {
     write_file_atomically(std::filesystem::path(file), data.data(), data.size(), mode);
@@ -1132,16 +1160,9 @@ void write_file_atomically(const std::string& file, const void* data, size_t siz
 
 void write_file_atomically(const std::filesystem::path& file, const void* data, size_t size, mode_t mode)
 {
-    File out = File::mkstemp(file);
+    File out = create_temporary(file, mode);
 
     try {
-        // Read the umask
-        mode_t mask = umask(0777);
-        umask(mask);
-
-        // Set the file permissions, honoring umask
-        out.fchmod(mode & ~mask);
-
         out.write_all_or_retry(data, size);
         out.close();
 
-- 
2.43.0


From 6765495f0989ca4a6022d400faf3b31d2911a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 46/79] fix: directory iteration and removal do not follow
 symlinks when d_type is missing

---
 wreport/utils/sys.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 004d7ee..cf6f8a6 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -780,7 +780,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -794,7 +794,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -808,7 +808,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -822,7 +822,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -835,7 +835,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -848,7 +848,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -861,7 +861,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
@@ -878,7 +878,7 @@ void Path::rmtree()
         if (strcmp(i->d_name, ".") == 0 || strcmp(i->d_name, "..") == 0) continue;
         if (i.isdir())
         {
-            Path sub(*this, i->d_name);
+            Path sub(*this, i->d_name, O_NOFOLLOW | O_DIRECTORY);
             sub.rmtree();
         }
         else
-- 
2.43.0


From aab8f758b40b3d2db77e85f5941eace04ee9f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 47/79] fix: moving a Path::iterator keeps its path

---
 wreport/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/sys.h b/wreport/utils/sys.h
index 9a0edf9..25a11f2 100644
--- a/wreport/utils/sys.h
+++ b/wreport/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From 04355afa1945d6cea983d69d254431998cd9bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 48/79] fix: do not terminate the process if cleanup in
 destructors fails

---
 wreport/utils/sys.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index cf6f8a6..c7c8422 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -506,7 +506,8 @@ PreserveFileTimes::PreserveFileTimes(FileDescriptor fd_)
 
 PreserveFileTimes::~PreserveFileTimes()
 {
-    fd.futimens(ts);
+    // Destructors cannot throw
+    ::futimens(fd, ts);
 }
 
 
@@ -1014,7 +1015,11 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        // Destructors cannot throw
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
@@ -1388,7 +1393,8 @@ OverrideRlimit::OverrideRlimit(int resource_, rlim_t rlim)
 
 OverrideRlimit::~OverrideRlimit()
 {
-    setrlimit(resource, orig);
+    // Destructors cannot throw
+    ::setrlimit(resource, &orig);
 }
 
 void OverrideRlimit::set(rlim_t rlim)
-- 
2.43.0


From b40e1a749f4f86977bbf7eaf7e137c5ec4fadbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 49/79] fix: allow to assign to a MMap that has been moved away

---
 wreport/utils/sys.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index c7c8422..b032f68 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -245,7 +245,8 @@ MMap& MMap::operator=(MMap&& o)
 {
     if (this == &o) return *this;
 
-    munmap();
+    if (addr != MAP_FAILED)
+        munmap();
     addr = o.addr;
     length = o.length;
     o.addr = MAP_FAILED;
-- 
2.43.0


From 089d0ef681114b693278cf36f15bcd86ba55a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 50/79] fix: do not leak file descriptors if opening a Path
 runs out of memory

---
 wreport/utils/sys.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index b032f68..659ba0a 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -577,8 +577,9 @@ Path::Path(const std::filesystem::path& path, int flags, mode_t mode)
 }
 
 Path::Path(Path& parent, const char* path, int flags, mode_t mode)
-    : ManagedNamedFileDescriptor(parent.openat(path, flags | O_PATH, mode), parent.path() / path)
+    : ManagedNamedFileDescriptor(-1, parent.path() / path)
 {
+    fd = parent.openat(path, flags | O_PATH, mode);
 }
 
 void Path::open(int flags, mode_t mode)
@@ -1314,14 +1315,14 @@ bool rmtree_ifexists(const char* pathname)
 
 bool rmtree_ifexists(const std::filesystem::path& pathname)
 {
-    int fd = open(pathname.c_str(), O_PATH);
-    if (fd == -1)
-    {
-        if (errno == ENOENT)
+    Path path(-1, pathname);
+    try {
+        path.open(0);
+    } catch (std::system_error& e) {
+        if (e.code().value() == ENOENT)
             return false;
-        throw std::system_error(errno, std::system_category(), "cannot open path "s + pathname.native());
+        throw;
     }
-    Path path(fd, pathname);
     path.rmtree();
     return true;
 }
-- 
2.43.0


From 4c6f598d486b289663b1313ca7cf5172ecbc5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 51/79] fix: Child::wait(msecs) returns true if the child
 process already terminated

---
 wreport/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 6f7cf72..407bd36 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -410,7 +410,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From 7c78e7c067e9ac721adbf929d7661e509e1c741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 52/79] fix: Child::send_signal only signals a running child
 process

---
 wreport/utils/subprocess.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 407bd36..b5e147e 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -457,6 +457,16 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        // kill(0) would signal our own process group
+        throw std::runtime_error("send_signal called before Child process was started");
+
+    if (m_terminated)
+        // The PID may now belong to an unrelated process
+        throw std::system_error(
+                ESRCH, std::system_category(),
+                "cannot send signal " + std::to_string(sig) + " to child PID " + std::to_string(m_pid));
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 43c18a0927eaec36ed5e00a1244f4f71b23d4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 53/79] fix: Child::wait(msecs) restores flags and mask of the
 SIGCHLD handler

---
 wreport/utils/subprocess.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index b5e147e..1645826 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -381,12 +381,15 @@ namespace {
 
 struct enable_sigchld
 {
-    sighandler_t prev_handler;
+    struct sigaction prev_action;
 
     enable_sigchld()
-        : prev_handler(signal(SIGCHLD, empty_handler))
     {
-        if (prev_handler == SIG_ERR)
+        struct sigaction action;
+        memset(&action, 0, sizeof(action));
+        action.sa_handler = empty_handler;
+        action.sa_flags = SA_RESTART;
+        if (sigaction(SIGCHLD, &action, &prev_action) == -1)
             throw std::system_error(
                     errno, std::system_category(),
                     "failed set signal handler for SIGCHLD");
@@ -394,7 +397,7 @@ struct enable_sigchld
 
     ~enable_sigchld()
     {
-        signal(SIGCHLD, prev_handler);
+        sigaction(SIGCHLD, &prev_action, nullptr);
     }
 
     static void empty_handler(int)
-- 
2.43.0


From 6577b6fcbf3c3ec765482864901e5836326e993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 54/79] fix: do not leak pipe file descriptors if starting a
 child process fails

---
 wreport/utils/subprocess.cc | 108 ++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 60 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 1645826..5e4f3fc 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -11,38 +11,28 @@
 #include <system_error>
 #include <algorithm>
 #include <sstream>
+#include <utility>
 
 namespace wreport {
 namespace subprocess {
 
-Child::~Child()
+static void close_pipe(Redirect action, int (&fds)[2])
 {
-    switch (m_stdin_action)
-    {
-        case Redirect::PIPE:
-            if (m_stdin[1] != -1) ::close(m_stdin[1]);
-            break;
-        default:
-            break;
-    }
+    if (action != Redirect::PIPE)
+        return;
 
-    switch (m_stdout_action)
+    for (int& fd: fds)
     {
-        case Redirect::PIPE:
-            if (m_stdout[0] != -1) ::close(m_stdout[0]);
-            break;
-        default:
-            break;
+        if (fd != -1) ::close(fd);
+        fd = -1;
     }
+}
 
-    switch (m_stderr_action)
-    {
-        case Redirect::PIPE:
-            if (m_stderr[0] != -1) ::close(m_stderr[0]);
-            break;
-        default:
-            break;
-    }
+Child::~Child()
+{
+    close_pipe(m_stdin_action, m_stdin);
+    close_pipe(m_stdout_action, m_stdout);
+    close_pipe(m_stderr_action, m_stderr);
 }
 
 int Child::returncode() const
@@ -96,6 +86,7 @@ void Child::set_stdin(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdin[0] = m_stdin[1] = -1;
     m_stdin_action = val;
 }
 
@@ -103,6 +94,7 @@ void Child::set_stdout(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdout[0] = m_stdout[1] = -1;
     m_stdout_action = val;
 }
 
@@ -110,6 +102,7 @@ void Child::set_stderr(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stderr after the child process has started");
+    m_stderr[0] = m_stderr[1] = -1;
     m_stderr_action = val;
 }
 
@@ -164,40 +157,26 @@ void Child::pre_fork()
     }
 }
 
-void Child::post_fork_parent()
+/// Close the end of a pipe used by the child process. Returns 0 or errno
+static int close_child_end(Redirect action, int& fd)
 {
-    switch (m_stdin_action)
-    {
-        case Redirect::PIPE:
-            if (close(m_stdin[0]) == -1)
-                throw std::system_error(errno, std::system_category(), "failed close read end of stdin pipe in parent process");
-            m_stdin[0] = -1;
-            break;
-        default:
-            break;
-    }
-
-    switch (m_stdout_action)
-    {
-        case Redirect::PIPE:
-            if (close(m_stdout[1]) == -1)
-                throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in parent process");
-            m_stdout[1] = -1;
-            break;
-        default:
-            break;
-    }
+    if (action != Redirect::PIPE)
+        return 0;
+    return ::close(std::exchange(fd, -1)) == -1 ? errno : 0;
+}
 
-    switch (m_stderr_action)
-    {
-        case Redirect::PIPE:
-            if (close(m_stderr[1]) == -1)
-                throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in parent process");
-            m_stderr[1] = -1;
-            break;
-        default:
-            break;
-    }
+void Child::post_fork_parent()
+{
+    int stdin_res = close_child_end(m_stdin_action, m_stdin[0]);
+    int stdout_res = close_child_end(m_stdout_action, m_stdout[1]);
+    int stderr_res = close_child_end(m_stderr_action, m_stderr[1]);
+
+    if (stdin_res)
+        throw std::system_error(stdin_res, std::system_category(), "failed close read end of stdin pipe in parent process");
+    if (stdout_res)
+        throw std::system_error(stdout_res, std::system_category(), "failed close read end of stdout pipe in parent process");
+    if (stderr_res)
+        throw std::system_error(stderr_res, std::system_category(), "failed close read end of stderr pipe in parent process");
 }
 
 static void redirect(int newfd, int oldfd, const char* errmsg)
@@ -312,10 +291,21 @@ void Child::fork()
     if (!pass_fds.empty())
         close_fds = true;
 
-    pre_fork();
-
     pid_t pid;
-    if ((pid = ::fork()) == 0)
+    try {
+        pre_fork();
+
+        pid = ::fork();
+        if (pid < 0)
+            throw std::system_error(errno, std::system_category(), "failed to fork()");
+    } catch (...) {
+        close_pipe(m_stdin_action, m_stdin);
+        close_pipe(m_stdout_action, m_stdout);
+        close_pipe(m_stderr_action, m_stderr);
+        throw;
+    }
+
+    if (pid == 0)
     {
         try {
             post_fork_child();
@@ -327,8 +317,6 @@ void Child::fork()
             _exit(EX_SOFTWARE);
         }
         _exit(main());
-    } else if (pid < 0) {
-        throw std::system_error(errno, std::system_category(), "failed to fork()");
     } else {
         m_pid = pid;
         post_fork_parent();
-- 
2.43.0


From 0549706b6a93b47192deb525cedc73c610b82a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 55/79] fix: child process streams can be redirected to the
 same file descriptor

---
 wreport/utils/subprocess.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 5e4f3fc..e2852aa 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -181,9 +181,16 @@ void Child::post_fork_parent()
 
 static void redirect(int newfd, int oldfd, const char* errmsg)
 {
+    // newfd is not closed: it may be in use for other redirections, or it may
+    // need to be passed to the child
     if (dup2(newfd, oldfd) == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
-    if (close(newfd) == -1 )
+}
+
+static void redirect_pipe(int newfd, int oldfd, const char* errmsg)
+{
+    redirect(newfd, oldfd, errmsg);
+    if (newfd != oldfd && close(newfd) == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
 }
 
@@ -200,7 +207,7 @@ void Child::post_fork_child()
             case Redirect::PIPE:
                 if (close(m_stdin[1]) == -1)
                     throw std::system_error(errno, std::system_category(), "failed close write end of stdin pipe in child process");
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
+                redirect_pipe(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
                 break;
             case Redirect::DEVNULL:
                 if (fd_devnull == -1)
@@ -220,7 +227,7 @@ void Child::post_fork_child()
             case Redirect::PIPE:
                 if (close(m_stdout[0]) == -1)
                     throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in child process");
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
+                redirect_pipe(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
                 break;
             case Redirect::DEVNULL:
                 if (fd_devnull == -1)
@@ -240,7 +247,7 @@ void Child::post_fork_child()
             case Redirect::PIPE:
                 if (close(m_stderr[0]) == -1)
                     throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in child process");
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
+                redirect_pipe(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
                 break;
             case Redirect::DEVNULL:
                 if (fd_devnull == -1)
-- 
2.43.0


From 7743d410be831993fcb613deaf345f45228853c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:02 +0000
Subject: [PATCH 56/79] fix: initialise the compression flag of new BUFR
 bulletins

---
 wreport/bulletin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From 10a9f43a1ca46904d1e66f9a172babc16909885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:02 +0000
Subject: [PATCH 57/79] fix: print data descriptions with character data,
 substituted values or bitmap reuse

---
 wreport/bulletin/interpreter.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 944d77d..b1e0f5f 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -649,6 +649,14 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
+    // Skip what can only be done when there is data, and not just a data
+    // description
+    switch (WR_VAR_X(code))
+    {
+        case 5: return;
+        case 23: if (WR_VAR_Y(code) == 255) return; break;
+        case 37: bitmaps.pending_definitions = 0; return;
+    }
     Interpreter::c_modifier(code, next);
 }
 
-- 
2.43.0


From f4d16bece29c9a0b47d6e2d47ce3d782667226b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 58/79] fix: print the structure of bulletins with changed
 reference values

---
 wreport/bulletin/dds-printer.cc | 6 ++++++
 wreport/bulletin/dds-printer.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index 7b36a1d..bd4b34d 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -94,6 +94,12 @@ void DDSPrinter::define_raw_character_data(Varcode code)
     var.print(out);
 }
 
+void DDSPrinter::define_c03_refval_override(Varcode code)
+{
+    // The new reference value is not among the variables in the subset, and
+    // the variables that use it already have it
+}
+
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-printer.h b/wreport/bulletin/dds-printer.h
index 8c533d4..b1e307e 100644
--- a/wreport/bulletin/dds-printer.h
+++ b/wreport/bulletin/dds-printer.h
@@ -38,6 +38,7 @@ public:
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
     void encode_associated_field(const Var& var) override;
 
-- 
2.43.0


From 5d512bdb7992f3f774d903bebb63f711235827df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:01 +0000
Subject: [PATCH 59/79] fix: sys::islnk looks at the link, not at what it
 points to

---
 wreport/utils/sys.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 659ba0a..51f7302 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -133,7 +133,16 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    // stat follows links, so it never reports one
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1)
+    {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot stat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From 2793642a8e165762c518a3c107c07925f4d26a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 60/79] fix: decode associated fields of strings, and missing
 ones, in compressed BUFR messages

---
 wreport/bufr/decoder.cc | 11 ++++++++--
 wreport/bufr/input.cc   | 47 +++++++++++++++++++++++------------------
 wreport/bufr/input.h    |  7 ++++++
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index ef9a15f..5cc1b01 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -506,9 +506,16 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     DispatchToSubsets dest(out, subset_count);
     switch (info->type)
     {
-        case Vartype::String:
-            in.decode_string(info, subset_count, dest);
+        case Vartype::String: {
+            auto associated_fields = in.decode_compressed_associated_fields(field, subset_count);
+            in.decode_string(info, subset_count, [&](unsigned subset_no, Var&& decoded) {
+                Var var(std::move(decoded));
+                if (associated_fields[subset_no].get())
+                    var.seta(std::move(associated_fields[subset_no]));
+                dest.add_var(subset_no, std::move(var));
+            });
             break;
+        }
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
         case Vartype::Integer:
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 88fd6b6..46b638c 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -433,33 +433,40 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
      *  - the difference bits for the actual variable
      */
 
+    auto associated_fields = decode_compressed_associated_fields(associated_field, subsets);
+
+    decode_compressed_number(info, subsets, [&](unsigned subset, Var&& decoded) {
+        // The variable may be used again to decode the next subset: do not
+        // leave attributes in it
+        Var var(std::move(decoded));
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    });
+}
+
+std::vector<std::unique_ptr<Var>> Input::decode_compressed_associated_fields(const bulletin::AssociatedField& associated_field, unsigned subsets)
+{
     /// Associated field base value
     uint32_t af_base = get_bits(associated_field.bit_count);
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
 
-    if (af_base == all_ones(associated_field.bit_count))
+    std::vector<std::unique_ptr<Var>> associated_fields(subsets);
+    uint32_t af_missing = all_ones(associated_field.bit_count);
+    for (unsigned i = 0; i < subsets; ++i)
     {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
-
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
-        {
-            uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
-            TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
-        }
-
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
+        uint32_t diff = get_bits(af_diffbits);
+        // If the base value is missing, the associated field is missing in all subsets
+        if (af_base == af_missing)
+            continue;
+        // A difference with all bits set means that the associated field is
+        // missing in this subset
+        uint32_t value = (af_diffbits && diff == all_ones(af_diffbits)) ? af_missing : af_base + diff;
+        TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
+        associated_fields[i] = associated_field.make_attribute(value);
     }
+    return associated_fields;
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index e392057..0e14ac6 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -317,6 +317,13 @@ public:
      */
     void decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
 
+    /**
+     * Decode the associated fields that precede an element in a compressed
+     * bufr with \a subsets subsets, as attributes for the element in each
+     * subset
+     */
+    std::vector<std::unique_ptr<Var>> decode_compressed_associated_fields(const bulletin::AssociatedField& afield, unsigned subsets);
+
     /**
      * Decode a number as described by dest.info(), and set it as value for \a
      * dest. The number is decoded for \a subsets compressed datasets, and an
-- 
2.43.0


From 02a9bf1e39b5e1fd2098b1ea0abbb5ee96f42e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 61/79] fix: decode a missing associated field with
 significance 21 as missing

---
 wreport/bulletin/associated_fields.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..15934a8 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,10 +72,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+            if (missing)
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
+            } else
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
-- 
2.43.0


From c3c02862c8223f588d09a9e0006e86b0aad82eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 62/79] fix: convert tenths of degrees Celsius to Kelvin with
 the right offset

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From fcc67aa0fc50e9b671b6bff91871a0440f03fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:45 +0000
Subject: [PATCH 63/79] fix: build the table of unit conversions once, even
 with threads or when memory runs out

---
 wreport/conv.cc | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..0af1063 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstring>
 #include <functional>
+#include <memory>
 #include <algorithm>
 
 using namespace std;
@@ -47,25 +48,9 @@ struct Conv
 {
     const char* from;
     const char* to;
-    const Convert* conv;
+    std::unique_ptr<const Convert> conv;
 
-    Conv(const char* from, const char* to, const Convert* conv) : from(from), to(to), conv(conv) {}
-    Conv(const Conv& o) = delete;
-    Conv(Conv&& o)
-        : from(o.from), to(o.to), conv(o.conv) { o.conv = nullptr; }
-    ~Conv() { delete conv; }
-
-    Conv& operator=(const Conv&) = delete;
-    Conv& operator=(Conv&& o)
-    {
-        if (this == &o) return *this;
-        from = o.from;
-        to = o.to;
-        delete conv;
-        conv = o.conv;
-        o.conv = nullptr;
-        return *this;
-    }
+    Conv(const char* from, const char* to, std::unique_ptr<const Convert> conv) : from(from), to(to), conv(std::move(conv)) {}
 
     int compare(const char* ofrom, const char* oto) const
     {
@@ -208,23 +193,23 @@ struct ConvertRepository
 
     void add_ident(const char* from, const char* to)
     {
-        repo.emplace_back(from, to, new ConvertIdent);
-        repo.emplace_back(to, from, new ConvertIdent);
+        repo.emplace_back(from, to, std::unique_ptr<const Convert>(new ConvertIdent));
+        repo.emplace_back(to, from, std::unique_ptr<const Convert>(new ConvertIdent));
 
     }
 
     void add_linear(const char* from, const char* to, double mul, double add)
     {
-        repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
+        repo.emplace_back(from, to, std::unique_ptr<const Convert>(new ConvertLinear(mul, add)));
+        repo.emplace_back(to, from, std::unique_ptr<const Convert>(new ConvertLinear(1/mul, -add/mul)));
     }
 
     void add_function(const char* from, const char* to,
                       std::function<double(double)> forward,
                       std::function<double(double)> backward)
     {
-        repo.emplace_back(from, to, new ConvertFunction(forward));
-        repo.emplace_back(to, from, new ConvertFunction(backward));
+        repo.emplace_back(from, to, std::unique_ptr<const Convert>(new ConvertFunction(forward)));
+        repo.emplace_back(to, from, std::unique_ptr<const Convert>(new ConvertFunction(backward)));
     }
 
     const Convert* find(const char* from, const char* to)
@@ -244,7 +229,7 @@ struct ConvertRepository
         if (begin == -1 || repo[begin].compare(from, to) != 0)
             return nullptr;
         else
-            return repo[begin].conv;
+            return repo[begin].conv.get();
     }
 };
 
@@ -253,10 +238,10 @@ struct ConvertRepository
 
 double convert_units(const char* from, const char* to, double val)
 {
-    static ConvertRepository* repo = nullptr;
     if (strcmp(from, to) == 0)
         return val;
-    if (!repo) repo = new ConvertRepository;
+    // Initialised once, even if called for the first time by many threads
+    static ConvertRepository* repo = new ConvertRepository;
     const Convert* conv = repo->find(from, to);
     if (!conv)
         error_unimplemented::throwf("conversion from \"%s\" to \"%s\" is not implemented", from, to);
-- 
2.43.0


From fd31e78fcc6aee5850c8fc9a5776153c56fd0cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 64/79] fix: wrep exits with an error if the help, information
 or list of tables cannot be written

---
 src/wrep.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index 13cef2f..35942c2 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -56,6 +56,18 @@ void do_help(FILE* out)
     , out);
 }
 
+// Make sure that all of the output has been written, and return the exit status
+int finish_output()
+{
+    // Do not report success if some of the output was lost
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "cannot write all of the output\n");
+        return 1;
+    }
+    return 0;
+}
+
 }
 
 int main(int argc, char* argv[])
@@ -134,13 +146,13 @@ int main(int argc, char* argv[])
     {
         case HELP:
             do_help(stdout);
-            return 0;
+            return finish_output();
         case INFO:
             do_info();
-            return 0;
+            return finish_output();
         case LIST_TABLES:
             tabledir::Tabledirs::get().print(stdout);
-            return 0;
+            return finish_output();
         case TRACE: handler.reset(new PrintTrace(stdout)); break;
         case DUMP: handler.reset(new PrintContents(stdout)); break;
         case DUMP_STRUCTURE: handler.reset(new PrintStructure(stdout)); break;
@@ -175,17 +187,10 @@ int main(int argc, char* argv[])
         }
 
         handler->done();
-
-        // Do not report success if some of the output was lost
-        if (fflush(stdout) == EOF || ferror(stdout))
-        {
-            fprintf(stderr, "cannot write all of the output\n");
-            return 1;
-        }
     } catch (std::exception& e) {
         fprintf(stderr, "%s\n", e.what());
         return 1;
     }
 
-    return 0;
+    return finish_output();
 }
-- 
2.43.0


From 0b9c221f47cc40881bbd01b757a8bd8d2305ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 65/79] fix: wrep reports a malformed list of varcodes instead
 of aborting

---
 src/wrep.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index 35942c2..501677f 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -121,7 +121,12 @@ int main(int argc, char* argv[])
             case 'D': options.action = DUMP_DDS; break;
             case 'p':
                 options.action = PRINT_VARS;
-                options.init_varcodes(optarg);
+                try {
+                    options.init_varcodes(optarg);
+                } catch (std::exception& e) {
+                    fprintf(stderr, "%s\n", e.what());
+                    return 1;
+                }
                 break;
             case 'i': options.action = INFO; break;
             case 'U': options.action = UNPARSABLE; break;
-- 
2.43.0


From 159937dddda72a65964c6d84fbad80f930ff87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 66/79] fix: do not read past the end of varcodes that are too
 short

---
 wreport/varinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..6243d03 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -84,7 +84,7 @@ Varcode varcode_parse(const char* entry)
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(entry[i]))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From e7bd5aa49c6902f8657c561f35cf5aa32b412ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:15 +0000
Subject: [PATCH 67/79] fix: support scales beyond 16 decimal digits, found in
 installed tables

---
 wreport/varinfo.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 6243d03..14d1f07 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,20 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+// Return 10 to the power of exp
+static double power_of_ten(unsigned exp)
+{
+    if (exp < sizeof(scales) / sizeof(scales[0]))
+        return scales[exp];
+    return pow(10, exp);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / power_of_ten(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * power_of_ten(-scale);
     else
         return val;
 }
@@ -252,17 +260,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / power_of_ten(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * power_of_ten(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * power_of_ten(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / power_of_ten(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +278,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * power_of_ten(scale)) / power_of_ten(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / power_of_ten(-scale)) * power_of_ten(-scale);
     else
         return round(val);
 }
@@ -284,9 +292,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * power_of_ten(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / power_of_ten(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From 4c3f4d10a41ef5e46dafa18a5302b478393013af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:44 +0000
Subject: [PATCH 68/79] fix: find all the sequences of D tables that are not
 sorted

---
 wreport/dtable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index 404de34..eb5ada4 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <algorithm>
 #include <map>
 
 using namespace std;
@@ -126,6 +127,9 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Not all files are sorted, but queries need entries to be
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From b49bbeefe73b7932bcb574648583e9f7fd478aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:24 +0000
Subject: [PATCH 69/79] fix: align the columns of 015028 in installed tables

---
 tables/B0000000000000027000.txt | 2 +-
 tables/B0000000000000028000.txt | 2 +-
 tables/B0000000000000029000.txt | 2 +-
 tables/B0000000000000030000.txt | 2 +-
 tables/B0000000000000031000.txt | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tables/B0000000000000027000.txt b/tables/B0000000000000027000.txt
index a5322d0..0a1b143 100644
--- a/tables/B0000000000000027000.txt
+++ b/tables/B0000000000000027000.txt
@@ -824,7 +824,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000028000.txt b/tables/B0000000000000028000.txt
index 24b3e06..c4e7563 100644
--- a/tables/B0000000000000028000.txt
+++ b/tables/B0000000000000028000.txt
@@ -839,7 +839,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000029000.txt b/tables/B0000000000000029000.txt
index bb02701..d190da7 100644
--- a/tables/B0000000000000029000.txt
+++ b/tables/B0000000000000029000.txt
@@ -844,7 +844,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000030000.txt b/tables/B0000000000000030000.txt
index 1aa1157..c050287 100644
--- a/tables/B0000000000000030000.txt
+++ b/tables/B0000000000000030000.txt
@@ -845,7 +845,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000031000.txt b/tables/B0000000000000031000.txt
index d8d2a13..73483ac 100644
--- a/tables/B0000000000000031000.txt
+++ b/tables/B0000000000000031000.txt
@@ -850,7 +850,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
-- 
2.43.0


From fa7a50f4bbdf386a3f3e68a6a49b2a95f0f60320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 70/79] fix: Popen::copy_env_from_parent replaces the
 environment set before

---
 wreport/utils/subprocess.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index e2852aa..c6d32cf 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -507,6 +507,7 @@ Popen::Popen(std::initializer_list<std::string> args_)
 
 void Popen::copy_env_from_parent()
 {
+    env.clear();
     for (char** s = environ; *s; ++s)
         env.emplace_back(*s);
 }
-- 
2.43.0


From afdbc82731afe69a85e0705ae43699211f29adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:30 +0000
Subject: [PATCH 71/79] fix: when removing a tree, remove subdirectories
 without going through their path again

---
 wreport/utils/sys.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 51f7302..2472253 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -883,19 +883,29 @@ Path Path::iterator::open_path(int flags) const
 }
 
 
-void Path::rmtree()
+/// Remove everything inside a directory
+static void remove_contents(Path& dir)
 {
-    for (auto i = begin(); i != end(); ++i)
+    for (auto i = dir.begin(); i != dir.end(); ++i)
     {
         if (strcmp(i->d_name, ".") == 0 || strcmp(i->d_name, "..") == 0) continue;
         if (i.isdir())
         {
-            Path sub(*this, i->d_name, O_NOFOLLOW | O_DIRECTORY);
-            sub.rmtree();
+            {
+                Path sub(dir, i->d_name, O_NOFOLLOW | O_DIRECTORY);
+                remove_contents(sub);
+            }
+            // Not by path: its directories may have become links meanwhile
+            dir.rmdirat(i->d_name);
         }
         else
-            unlinkat(i->d_name);
+            dir.unlinkat(i->d_name);
     }
+}
+
+void Path::rmtree()
+{
+    remove_contents(*this);
     // TODO: is there a way to do this using fd instead?
     std::filesystem::remove(path_);
 }
-- 
2.43.0


From 64a82d78c7b820f4d16986aa2c54b62991e61af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:30 +0000
Subject: [PATCH 72/79] fix: do not leave a temporary directory behind if it
 cannot be opened or memory runs out

---
 wreport/utils/sys.cc | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index 2472253..a87f442 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -937,9 +937,15 @@ std::string Path::mkdtemp(const char* prefix)
 
 std::string Path::mkdtemp(char* pathname_template)
 {
-    if (char* pathname = ::mkdtemp(pathname_template))
+    char* pathname = ::mkdtemp(pathname_template);
+    if (!pathname)
+        throw std::system_error(errno, std::system_category(), "mkdtemp failed on "s + pathname_template);
+    try {
         return pathname;
-    throw std::system_error(errno, std::system_category(), "mkdtemp failed on "s + pathname_template);
+    } catch (...) {
+        ::rmdir(pathname);
+        throw;
+    }
 }
 
 /*
@@ -1058,10 +1064,21 @@ void Tempfile::unlink()
  * Tempdir
  */
 
-Tempdir::Tempdir() : sys::Path(sys::Path::mkdtemp("")) {}
-Tempdir::Tempdir(const std::filesystem::path& prefix) : sys::Path(sys::Path::mkdtemp(prefix)) {}
-Tempdir::Tempdir(const std::string& prefix) : sys::Path(sys::Path::mkdtemp(std::filesystem::path(prefix))) {}
-Tempdir::Tempdir(const char* prefix) : sys::Path(sys::Path::mkdtemp(prefix)) {}
+/// Open a directory just created, removing it if it cannot be opened
+static Path open_new_dir(const std::string& pathname)
+{
+    try {
+        return Path(std::filesystem::path(pathname));
+    } catch (...) {
+        ::rmdir(pathname.c_str());
+        throw;
+    }
+}
+
+Tempdir::Tempdir() : sys::Path(open_new_dir(sys::Path::mkdtemp(""))) {}
+Tempdir::Tempdir(const std::filesystem::path& prefix) : sys::Path(open_new_dir(sys::Path::mkdtemp(prefix))) {}
+Tempdir::Tempdir(const std::string& prefix) : sys::Path(open_new_dir(sys::Path::mkdtemp(std::filesystem::path(prefix)))) {}
+Tempdir::Tempdir(const char* prefix) : sys::Path(open_new_dir(sys::Path::mkdtemp(prefix))) {}
 
 Tempdir::~Tempdir()
 {
-- 
2.43.0


From c4ed9d750bb3e3c7a17d2f66a7d16f4a99f7c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 73/79] fix: refuse to encode BUFR messages whose length or
 number of subsets cannot be represented

---
 wreport/bufr_encoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index cd3dfdd..c33f21a 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -318,6 +318,9 @@ void Encoder::encode_sec3()
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets, but a BUFR message can have at most 65535", in.subsets.size());
+
     // Length of section
     out.add_bits(8 + 2 * static_cast<uint32_t>(in.datadesc.size()), 24);
     // Set to 0 (reserved)
@@ -397,6 +400,10 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // All lengths, of sections and of the message, are encoded in 24 bits
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long, but a BUFR message can have at most 16777215", out.out.size());
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
-- 
2.43.0


From 6e29dee99e34e5d32f346559449ae4ee72cad865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:19 +0000
Subject: [PATCH 74/79] fix: Child::wait(msecs) does not miss the end of a
 child just before it sleeps

If the child process ended after waitpid was called and before nanosleep,
SIGCHLD did not interrupt the sleep, and the wait always lasted until the time
limit. The same happened if another thread received the signal.
---
 wreport/utils/subprocess.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index c6d32cf..3504a77 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -434,17 +434,25 @@ bool Child::wait(int msecs)
 
         // res == 0: child is still running. Wait for completion
 
-        ::timespec remaining;
+        // SIGCHLD may have arrived since waitpid, or may be delivered to
+        // another thread, and not interrupt the sleep: check again every now
+        // and then
+        ::timespec interval = timeout;
+        if (interval.tv_sec > 0 or interval.tv_nsec > 100000000)
+            interval = { 0, 100000000 };
+
+        ::timespec remaining = { 0, 0 };
 
         enable_sigchld es;
-        int sres = nanosleep(&timeout, &remaining);
-        if (sres == 0) {
-            //Timeout expired
-            timeout = {0, 0};
-            continue;
-        } else if (errno == EINTR) {
-            // Signal received (possibly SIGCHLD?)
-            timeout = remaining;
+        int sres = nanosleep(&interval, &remaining);
+        if (sres == 0 or errno == EINTR) {
+            // Interval expired, or signal received (possibly SIGCHLD?)
+            timeout.tv_nsec -= interval.tv_nsec - remaining.tv_nsec;
+            if (timeout.tv_nsec < 0)
+            {
+                --timeout.tv_sec;
+                timeout.tv_nsec += 1000000000;
+            }
             continue;
         } else
             throw std::system_error(
-- 
2.43.0


From 2f33df45c4364bfef342ddfe39531e527aec1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:13 +0000
Subject: [PATCH 75/79] fix: scan the features of bulletins with associated
 fields, character data, changed reference or substituted values

wrep --features reported an error for them, because the functions that handle
their data were not implemented, although the data is not needed.
---
 wreport/bulletin/dds-scanfeatures.cc | 16 ++++++++++++++++
 wreport/bulletin/dds-scanfeatures.h  |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/wreport/bulletin/dds-scanfeatures.cc b/wreport/bulletin/dds-scanfeatures.cc
index 09f269f..317e645 100644
--- a/wreport/bulletin/dds-scanfeatures.cc
+++ b/wreport/bulletin/dds-scanfeatures.cc
@@ -22,6 +22,10 @@ void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
             features.insert(varcode_format(code));
             break;
     }
+    // Bitmaps have no contents, since we only have a data description: there
+    // is no variable to substitute
+    if (code == WR_VAR(2, 23, 255))
+        return;
     Interpreter::c_modifier(code, next);
 }
 
@@ -40,6 +44,18 @@ void ScanFeatures::define_variable(Varinfo info)
 {
 }
 
+void ScanFeatures::define_variable_with_associated_field(Varinfo info)
+{
+}
+
+void ScanFeatures::define_raw_character_data(Varcode code)
+{
+}
+
+void ScanFeatures::define_c03_refval_override(Varcode code)
+{
+}
+
 void ScanFeatures::define_bitmap(unsigned bitmap_size)
 {
 }
diff --git a/wreport/bulletin/dds-scanfeatures.h b/wreport/bulletin/dds-scanfeatures.h
index 0de3adf..d73b23e 100644
--- a/wreport/bulletin/dds-scanfeatures.h
+++ b/wreport/bulletin/dds-scanfeatures.h
@@ -21,6 +21,9 @@ public:
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void define_variable(Varinfo info) override;
+    void define_variable_with_associated_field(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_associated_field_significance(Varinfo info) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
-- 
2.43.0


From 26ee2f6ab8acbee4d556d119b2aa00003509b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:17 +0000
Subject: [PATCH 76/79] fix: conversion between Pascal and nanobar was inverted

1 nbar is 1e-9 bar, that is, 0.0001 Pa
---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 0af1063..520c306 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -121,8 +121,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0);
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From 263778b62b60a8e736fe05f89b5eb60081274d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:18 +0000
Subject: [PATCH 77/79] fix: do not read past the end of a list of opcodes

---
 wreport/opcodes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..1a44599 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (begin + i >= end)
             return 0;
         else
             return begin[i];
-- 
2.43.0


From e340c1d57affab55f36f0191fbed5504c2f8d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 78/79] fix: do not read past a fixed size buffer when encoding
 long CREX values

---
 wreport/buffers/crex.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index fba7ffe..0d9b5ff 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,4 +1,5 @@
 #include "crex.h"
+#include "wreport/error.h"
 #include "wreport/var.h"
 #include <cstdarg>
 #include "config.h"
@@ -179,10 +180,25 @@ void CrexOutput::raw_appendf(const char* fmt, ...)
     char sbuf[256];
     va_list ap;
     va_start(ap, fmt);
-    int len = vsnprintf(sbuf, 255, fmt, ap);
+    int len = vsnprintf(sbuf, sizeof(sbuf), fmt, ap);
     va_end(ap);
 
-    buf.append(sbuf, len);
+    if (len < 0)
+        throw error_system("cannot format CREX data");
+
+    if (static_cast<size_t>(len) < sizeof(sbuf))
+    {
+        buf.append(sbuf, len);
+        return;
+    }
+
+    // sbuf is too small: format directly in the output
+    size_t pos = buf.size();
+    buf.resize(pos + len + 1);
+    va_start(ap, fmt);
+    vsnprintf(buf.data() + pos, len + 1, fmt, ap);
+    va_end(ap);
+    buf.resize(pos + len);
 }
 
 void CrexOutput::encode_check_digit()
-- 
2.43.0


From 04584ee6b8893fa2fdb8ec0b799c455cc6b2df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:54 +0000
Subject: [PATCH 79/79] fix: empty a bulletin before the tables that describe
 its values

Bulletin::clear() destroyed the locally generated entries of the tables
(bitmaps, character data, unknown local elements) before the variables that
still refer to them, and destroying those read freed memory.
---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index f77cb96..c39ef57 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -68,9 +68,10 @@ void Bulletin::clear()
     update_sequence_number = 0;
     rep_year = 0;
     rep_month = rep_day = rep_hour = rep_minute = rep_second = 0;
-    tables.clear();
     datadesc.clear();
+    // The variables refer to information owned by the tables
     subsets.clear();
+    tables.clear();
 }
 
 Subset& Bulletin::obtain_subset(unsigned subsection)
-- 
2.43.0

