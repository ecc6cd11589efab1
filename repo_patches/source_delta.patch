From 0304750fa04f5b060fa88631c6f9591dfe97af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 01/43] fix: reject NaN and 2^63/2^64 when restoring floating
 point values to integers

---
 include/Srl/TpTools.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..8031701 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -149,8 +149,13 @@ namespace Srl { namespace TpTools {
         {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
-            if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+            /* NaN and everything not below max + 1 can't be represented by an integral type
+             * ((double)max + 1 rounds to the exact power of two for 64 bit types) */
+            const bool overflow = std::is_floating_point<T>::value
+                ? val < min<T>() || val > (double)max<T>()
+                : !(val >= (double)min<T>() && val < (double)max<T>() + 1);
+
+            if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 && overflow) {
 
                 return false;
             }
-- 
2.43.0


From a0e59bdd2e8defb4571ae9ef7f25bc44aedff9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 02/43] fix: reject over-long and overflowing variable-length
 integers in the native format

---
 src/lib/PSrl.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..36e81f7 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,26 +88,25 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
-        uint64_t out_integer = mask_reset_msb & block;
-
-        auto shift = 7U;
-        /* first block w/o msb set is the last 8-bit block of the integer to decode */
-        while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
-            out_integer |= (mask_reset_msb & block) << shift;
-            shift += 7;
-        }
+        uint64_t out_integer = 0;
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
+        for(auto shift = 0U; ; shift += 7) {
 
-        source.move(1, error);
+            auto block = source.read_move<uint8_t>(error);
+            auto bits  = mask_reset_msb & block;
 
-        return out_integer;
+            /* no support for integers > 64 bit */
+            if(shift > 63 || (shift == 63 && bits > 1)) {
+                error();
+            }
+
+            out_integer |= bits << shift;
+
+            /* first block w/o msb set is the last 8-bit block of the integer to decode */
+            if(!(mask_msb & block)) {
+                return out_integer;
+            }
+        }
     }
 }
 
-- 
2.43.0


From c126dcb3ec1c5ae5ed7ded8e8882634e2837e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 03/43] fix: never read past the end of the input, keep bounds
 checks free of pointer overflow

---
 include/Srl/In.hpp | 12 ++++++++----
 src/lib/In.cpp     |  2 +-
 src/lib/PJson.cpp  |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..fff3d5d 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -48,8 +48,12 @@ namespace Srl { namespace Lib {
         }
         auto steps = 0U;
 
+        /* the current byte has to be available before it is compared */
+        this->peek(1, error);
+
         while(Not == this->is_at_token(tokens...)) {
             this->move(1, error);
+            this->peek(1, error);
             steps++;
         }
 
@@ -82,7 +86,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +94,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -116,14 +120,14 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : (size_t)(this->end - this->pos);
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
-- 
2.43.0


From 65b9010cceee3620536726b32bb4c2b11a1bc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 04/43] fix: keep the buffer anchor across refills of a
 streamed source

---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..af41653 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    anchor = anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From dff31162a8263dba0584cc92dd589868ba466e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 05/43] fix: count cursor steps without truncation to 32 bits

---
 include/Srl/In.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index fff3d5d..a7cee9f 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -46,7 +46,7 @@ namespace Srl { namespace Lib {
         if(!this->pos) {
             error();
         }
-        auto steps = 0U;
+        size_t steps = 0;
 
         /* the current byte has to be available before it is compared */
         this->peek(1, error);
@@ -117,7 +117,7 @@ namespace Srl { namespace Lib {
     {
         const size_t max = Aux::max_len<Tokens...>();
 
-        auto steps = 0U;
+        size_t steps = 0;
         auto bufsz = buf.size();
 
         while(*this->peek(1, error) != delimiter) {
-- 
2.43.0


From 824e5c698fdd72e397ded689886ac180c876af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 06/43] fix: MessagePack string and binary lengths are
 big-endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..3786ea8 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -135,12 +135,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes<uint16_t>(block.size);
             out.write_byte(0xC5);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes<uint32_t>(block.size);
             out.write_byte(0xC6);
             out.write(sz);
         }
@@ -162,12 +162,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes<uint16_t>(block.size);
             out.write_byte(0xDA);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes<uint32_t>(block.size);
             out.write_byte(0xDB);
             out.write(sz);
         }
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From da66d580c27d43019a788cefba9ddafc4ec6784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 07/43] fix: reject the unused MessagePack prefix 0xC1

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 3786ea8..95ffa28 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3 || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From fe728e0bb6d398cefe064ffe1dc66db5a12e0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 08/43] fix: consume scalar MessagePack map keys completely,
 reject other non-string keys

---
 src/lib/PMsgPack.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 95ffa28..da9f35b 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -434,7 +434,17 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+        if(prefix_is_str(prefix)) {
+            name = read_name(prefix, this->buffer, source);
+
+        } else if(prefix_is_scalar(prefix)) {
+            /* not usable as a name, has to be skipped nevertheless */
+            read_scalar(prefix, source);
+
+        } else {
+            error();
+        }
+
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From b1b575b12cbff8f1ccf98b991b2f2a18a0a79147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 09/43] fix: collect output larger than 4 GB at the right
 positions

---
 src/lib/Out.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..65e918a 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -53,7 +53,7 @@ void Out::write_to_buffer()
 
     this->buffer->resize(this->state.sz_total);
 
-    auto pos = 0U;
+    size_t pos = 0;
     auto* seg = this->heap.chain.used_segs.front;
 
     while(seg) {
-- 
2.43.0


From 6901a3776c78a43b097a5390b43bcab62d2c7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 10/43] fix: keep segment sizes of the memory arena in size_t

---
 include/Srl/Heap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..46c7b96 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -61,8 +61,8 @@ namespace Srl { namespace Lib {
             ~Segment();
 
             uint8_t* data    = nullptr;
-            uint32_t left    = 0;
-            uint32_t size    = 0;
+            size_t   left    = 0;
+            size_t   size    = 0;
             bool     sub_seg = false;
 
             void     dec (size_t n) { assert(this->left >= n); this->left -= n; }
-- 
2.43.0


From a909e7aa8a0bee34d1eb1067f8efa5d392462933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 11/43] fix: reject malformed base64 text and never read past
 its end

---
 include/Srl/Resolve.hpp  |  4 ++++
 src/lib/ToolsBtsConv.cpp | 31 +++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..782fedd 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -868,6 +868,10 @@ namespace Srl { namespace Lib {
             uint8_t* data_dst = wrap.alloc(size);
 
             if(size == 0) {
+                if(value.type() == Type::String) {
+                    /* nothing to write, rejects malformed text */
+                    Tools::base64_to_bytes(data_dst, size, (const char*)mem_block.ptr, mem_block.size);
+                }
                 return;
             }
 
diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..47e64c5 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -110,31 +110,46 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
                         " Size of source must be a multiple of 4." );
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    const auto decoded_size = get_base64_decoded_size(str, str_len);
+
+    if(dest_size < decoded_size) {
+        throw Exception("Unable to convert base64 string to binary data. Destination buffer too small.");
+    }
+
+    for(size_t in_idx = 0, out_idx = 0; in_idx < str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
            b2 == table.val_invalid || b3 == table.val_invalid) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
+
+        /* padding is limited to the last two characters */
+        bool misplaced = b0 == table.val_fill || b1 == table.val_fill ||
+                        (b2 == table.val_fill && b3 != table.val_fill) ||
+                        (b3 == table.val_fill && in_idx + 4 < str_len);
+
+        if(misplaced) {
+            throw Exception("Unable to convert base64 string to binary data. String malformed.");
+        }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
         dest[out_idx] = b0 << 2 | b1 >> 4;
         /* PPPPPP PP[BBBB BBBB]BB BBBBBB */
-        if(out_idx + 1 < dest_size) {
+        if(b2 != table.val_fill) {
             dest[out_idx + 1] = b1 << 4 | b2 >> 2;
         }
         /* PPPPPP PPPPPP PPPP[BB BBBBBB] */
-        if(out_idx + 2 < dest_size) {
+        if(b3 != table.val_fill) {
             dest[out_idx + 2] = b2 << 6 | b3;
         }
     }
 
-    return get_base64_decoded_size(str, str_len);
+    return decoded_size;
 }
 
 vector<uint8_t> Tools::bytes_to_hex(const uint8_t* bytes, size_t nbytes)
-- 
2.43.0


From 37335fbfa6002a69bce5ec4c5a480816e8c2b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 12/43] fix: detect every overflow when reading an integer from
 text

---
 src/lib/ToolsStrConv.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..ac9c302 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,6 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,12 +65,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
-- 
2.43.0


From c77e7a2034b5cd4d2a92888c083656f5f2648942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 13/43] fix: read the smallest signed 64-bit integer from text
 as an integer

---
 src/lib/ToolsStrConv.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index ac9c302..5ae8081 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -73,7 +73,8 @@ namespace {
             val = val * 10 + digit;
         }
 
-        bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
+        /* the magnitude of the smallest signed integer exceeds that of the largest by one */
+        bool success = idx >= str_len && (!is_signed || val <= (uint64_t)numeric_limits<int64_t>::max() + 1U);
 
         return make_tuple(val, is_signed, success);
     }
@@ -218,7 +219,7 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
         if(success) {
-            return is_signed ? make_pair(true, Value(-(int64_t)i)) : make_pair(true, Value(i));
+            return is_signed ? make_pair(true, Value((int64_t)(0U - i))) : make_pair(true, Value(i));
         }
     }
 
-- 
2.43.0


From e98f97505032fbadd091f98442b8b4792bee9f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 14/43] fix: write 2^63 as floating-point text instead of a
 negative integer

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 5ae8081..62182fa 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -99,7 +99,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0U - value.pblock().ui64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
@@ -134,7 +134,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < -(double)numeric_limits<int64_t>::min() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From 6f3e1a197d3a2267b79b9bf579ce377b62a6c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 15/43] fix: fill reserved slots relative to where the output
 started in the stream

---
 include/Srl/Out.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..2e350dc 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -48,8 +48,10 @@ namespace Srl { namespace Lib {
 
         } else {
             auto crr = this->stream->tellp();
+            /* positions are relative to the start of this output, not to the start of the stream */
+            auto flushed = this->state.sz_total - (this->state.cap - this->state.left);
 
-            this->stream->seekp(ticket.pos + offset);
+            this->stream->seekp(crr - std::streamoff(flushed - ticket.pos - offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
-- 
2.43.0


From 78582d1a52857e2a9acacde318155e363b8c4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 16/43] fix: do not keep a remainder in two places when the
 arena cannot get more memory

---
 src/lib/Heap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Heap.cpp b/src/lib/Heap.cpp
index a069ace..28312cf 100644
--- a/src/lib/Heap.cpp
+++ b/src/lib/Heap.cpp
@@ -189,6 +189,8 @@ Heap::Segment* Heap::alloc(size_t n, size_t align)
 
     if(this->crr_seg && crr_seg->left > 0) {
         this->put_mem(crr_seg->pointer(), this->crr_seg->left);
+        /* the remainder has a new owner, also if the allocation below fails */
+        this->crr_seg = nullptr;
     }
 
     if(chain.free_segs.front && (seg = find_free_seg(n, align))) {
-- 
2.43.0


From ff7e38b0ec0be6cdca52c175b6b908ea4a88bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 17/43] fix: reject requests to the arena whose size in bytes
 overflows

---
 include/Srl/Heap.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Srl/Heap.hpp b/include/Srl/Heap.hpp
index f59158b..d615e0d 100644
--- a/include/Srl/Heap.hpp
+++ b/include/Srl/Heap.hpp
@@ -3,11 +3,18 @@
 
 #include "Heap.h"
 
+#include <limits>
+#include <new>
+
 namespace Srl { namespace Lib {
 
     template<class T>
     T* Heap::get_mem(size_t n_elems)
     {
+        if(n_elems > (std::numeric_limits<size_t>::max() - alignof(T)) / sizeof(T)) {
+            throw std::bad_alloc();
+        }
+
         auto sz = n_elems * sizeof(T);
 
         if(!this->crr_seg || this->crr_seg->left < sz + alignof(T) - 1) {
-- 
2.43.0


From 1ee875b114e0a056d4cdbca98694ce99f9bd84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 18/43] fix: move the memory of a hash table along with its
 entries

---
 include/Srl/Hash.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..c736743 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,12 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->hash_fnc  = std::move(m.hash_fnc);
+        /* table and entries live there */
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From 5dd95dc3f5065dc5c21c83f8535fc632a51e5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 19/43] fix: escape names in JSON output

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..d7ce27b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -107,7 +107,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From e718bf49ab97406fadc69cfafa311deb56df664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 20/43] fix: escape all control characters in JSON output

---
 src/lib/PJson.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index d7ce27b..fb2416b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -28,11 +28,26 @@ namespace {
         return array<const char, 2> { { '\\', c } };
     }
 
+    constexpr array<const char, 6> ctl(const char high, const char low)
+    {
+        return array<const char, 6> { { '\\', 'u', '0', '0', high, low } };
+    }
+
     void write_escape(const MemBlock& str, Out& out)
     {
         out.write_substitute(str,
             '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f'),
+            /* the remaining control characters have no short form */
+            '\x00', ctl('0', '0'), '\x01', ctl('0', '1'), '\x02', ctl('0', '2'),
+            '\x03', ctl('0', '3'), '\x04', ctl('0', '4'), '\x05', ctl('0', '5'),
+            '\x06', ctl('0', '6'), '\x07', ctl('0', '7'), '\x0b', ctl('0', 'b'),
+            '\x0e', ctl('0', 'e'), '\x0f', ctl('0', 'f'), '\x10', ctl('1', '0'),
+            '\x11', ctl('1', '1'), '\x12', ctl('1', '2'), '\x13', ctl('1', '3'),
+            '\x14', ctl('1', '4'), '\x15', ctl('1', '5'), '\x16', ctl('1', '6'),
+            '\x17', ctl('1', '7'), '\x18', ctl('1', '8'), '\x19', ctl('1', '9'),
+            '\x1a', ctl('1', 'a'), '\x1b', ctl('1', 'b'), '\x1c', ctl('1', 'c'),
+            '\x1d', ctl('1', 'd'), '\x1e', ctl('1', 'e'), '\x1f', ctl('1', 'f')
         );
     }
 
-- 
2.43.0


From bd756a45ed1de7cdf17748503b1563b02d3253ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 21/43] fix: do not count the characters of a string with 32
 bits when escaping

---
 include/Srl/Out.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index 2e350dc..ab7d168 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -92,7 +92,7 @@ namespace Srl { namespace Lib {
     template<class... Tokens>
     void Out::write_substitute(const Lib::MemBlock& data, const Tokens&... tokens)
     {
-        for(auto i = 0U; i < data.size; i++) {
+        for(size_t i = 0; i < data.size; i++) {
             this->substitute_token(*(data.ptr + i), tokens...);
         }
     }
-- 
2.43.0


From b9098822030182c95cf743906b1e47035918d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 22/43] fix: read the digits of a JSON unicode escape in the
 right order

---
 src/lib/PJson.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index fb2416b..f715451 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -13,14 +13,30 @@ namespace {
         throw Exception("Unable to parse JSON document. Index out of bounds.");
     };
 
-    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
+    void read_code_unit(In& src, uint8_t* unit)
+    {
         /* skip "\u" and read 4 hex digits */
         auto block = src.read_block(2 + 4, error);
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        Tools::hex_to_bytes(unit, 2, block.ptr + 2, 4);
+
+        /* the digits are in big-endian order, Encoding::UTF16 is little-endian */
+        swap(unit[0], unit[1]);
+    }
+
+    const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
+        uint8_t units[4];
+        size_t size = 2;
+
+        read_code_unit(src, units);
+
+        /* a high surrogate forms one character with the low surrogate behind it */
+        if((units[1] & 0xFC) == 0xD8 && src.try_peek(2) && Aux::comp<2>(src.pointer(), "\\u")) {
+            read_code_unit(src, units + 2);
+            size = 4;
+        }
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+        return Tools::conv_charset(Encoding::UTF8, String(units, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From f1f403bf44a5fa5092474261c18041c5110f826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 23/43] fix: a JSON scope is only closed by its own bracket

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index f715451..c0df6e7 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -263,7 +263,7 @@ void PJson::process_bracket(char bracket, State& state)
               : Type::Scope_End;
 
     if(type == Type::Scope_End) {
-        if(this->scope_stack.empty()) {
+        if(this->scope_stack.empty() || this->scope_type != (bracket == '}' ? Type::Object : Type::Array)) {
             this->throw_exception(state, "Redundant scope delimiter.");
         }
 
-- 
2.43.0


From de52f1fa2583ed46c798e322594cd80900c2372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 24/43] fix: a JSON block comment extends from its opening to
 its closing token

---
 src/lib/PJson.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index c0df6e7..be727cf 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -114,7 +114,10 @@ namespace {
         }
 
         if(*(source.pointer() + 1) == '*') {
+            source.move(2, error);
             source.move_until(error, array<const char, 2> { { '*', '/' } });
+            /* to the last character of the comment */
+            source.move(1, error);
             return;
         }
 
-- 
2.43.0


From 3db4bdd57420656077b189e35b28dc67190c0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 25/43] fix: reject characters in front of a JSON literal
 instead of skipping them

---
 src/lib/PJson.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index be727cf..f2ff834 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -319,6 +319,10 @@ void PJson::process_char(In& source, State& state, bool& out_move)
 {
     bool is_literal = this->lookup.table[*source.pointer()];
 
+    if(!is_literal && !Tools::is_space(*source.pointer())) {
+        this->throw_exception(state, "Unexpected character.");
+    }
+
     if(is_literal) {
 
         bool likely_fp = false;
-- 
2.43.0


From c62f9160b79989e9f3ff8187c8c76a68fa61e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 26/43] fix: continue a character conversion behind what was
 already converted when the buffer grows

---
 src/lib/ToolsStrConv.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 62182fa..7996a15 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -347,13 +347,11 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
     size_t left_out = buffer.size() - buffer_index;
 
     auto* src = (char*)str_wrap.data();
-    size_t converted = 0;
 
     while(true) {
-        auto* dst = (char*)&buffer[buffer_index + converted];
-        converted = iconv(desc, &src, &left_in, &dst, &left_out);
+        auto* dst = (char*)buffer.data() + (buffer.size() - left_out);
 
-        if(converted == 0) {
+        if(iconv(desc, &src, &left_in, &dst, &left_out) != (size_t)(-1)) {
             /* all characters converted */
             break;
         }
@@ -376,11 +374,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
 
         if (errno == E2BIG) {
             /* output buffer not big enough */
-            auto current = buffer.size();
-            auto new_size = buffer.size() + left_in * 4;
-            buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            buffer.resize(buffer.size() + left_in * 4);
+            left_out += left_in * 4;
         }
     }
 
-- 
2.43.0


From 4a0cfae4f673a441f5a495df17affb642c6b1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 27/43] fix: skipping the rest of a node does not stop behind
 its first nested scope

---
 src/lib/Node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..4edfe99 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -526,10 +526,10 @@ void Node::consume_scope()
         }
 
         if(tp == Type::Scope_End) {
-            depth--;
-            if(depth <= 0) {
+            if(depth == 0) {
                 this->parsed = true;
             }
+            depth--;
         }
     }
 }
-- 
2.43.0


From d98dcf630561207e7e8ee9f5a0f7390f1575760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 28/43] fix: restoring a Union from a source keeps the members
 behind it

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 782fedd..032eca4 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From 02ec8ab7d90fa5f2295cf127536d985a0865e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:41 +0000
Subject: [PATCH 29/43] fix: Node::get throws on an index out of bounds

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 4edfe99..ad24d80 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From e4e143ec36e3b290cf4834a43f5c992e37ce0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 30/43] fix: a converted text is terminated behind its last
 character

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 032eca4..3efa43b 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From 42a72f76188f4ed1ccfb03fb1744aa7394793e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 31/43] fix: storing a wide character array does not read
 behind it

---
 include/Srl/Resolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 3efa43b..9ea8eb0 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
-- 
2.43.0


From 7b3dbc8dcff74b06e83e3576689db8de52d79789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:25 +0000
Subject: [PATCH 32/43] fix: data that is not a whole number of elements is not
 restored into a vector

---
 include/Srl/BitWrap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..5e34dcf 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -4,6 +4,7 @@
 #include "Blocks.h"
 #include "Common.h"
 #include "Srl/Resolve.h"
+#include "Srl/Exception.h"
 
 #include <functional>
 #include <utility>
@@ -42,6 +43,9 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
+                    if(sz % sizeof(T) != 0) {
+                        throw Exception("Unable to restore vector. Data is not a whole number of elements.");
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From 2ae248f9c2a88580c305f3f93b79cd442da76330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 33/43] fix: storing an object does not refer to shared objects
 of the document stored before

---
 include/Srl/Environment.h | 2 ++
 src/lib/Environment.cpp   | 1 +
 src/lib/Node.cpp          | 4 +++-
 src/lib/Tree.cpp          | 1 +
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..6c6affe 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -49,6 +49,8 @@ namespace Lib {
         HTable<String, String> str_table;
 
         HTable<const void*, size_t>           shared_table_store   { 16 };
+        /* objects written to the current output directly, without a node */
+        HTable<const void*, size_t>           shared_table_output  { 16 };
         HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 3b3013a..82f0024 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -222,5 +222,6 @@ void Environment::clear()
     this->heap.clear();
     this->str_table.clear();
     this->shared_table_store.clear();
+    this->shared_table_output.clear();
     this->shared_table_restore.clear();
 }
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ad24d80..c762911 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -537,7 +537,9 @@ void Node::consume_scope()
 pair<bool, uint64_t> Node::insert_shared (const void* obj)
 {
     bool exists; size_t* key;
-    auto& table = this->env->shared_table_store;
+    auto& table = this->env->parsing
+        ? this->env->shared_table_output
+        : this->env->shared_table_store;
 
     tie(exists, key) = table.insert(obj, table.num_entries());
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..054278e 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,6 +55,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
+    this->env->shared_table_output.clear();
     this->env->parsing = true;
 
     auto& name = this->root_node->name();
-- 
2.43.0


From a9802609465a4f3b9d3436b48dc28f26986bc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 34/43] fix: a tree can be used again after an exception while
 storing

---
 include/Srl/Environment.h |  7 +++++++
 include/Srl/Tree.hpp      | 12 +++++++-----
 src/lib/Tree.cpp          | 14 ++++++++------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 6c6affe..d946fbb 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -81,6 +81,13 @@ namespace Lib {
 
         void clear();
 
+        /* writing to the output directly ends with this scope, also if it is left by an exception */
+        struct DirectOutput {
+            Environment& env;
+
+            DirectOutput(Environment& env_) : env(env_) { env.parsing = true; }
+            ~DirectOutput() { env.parsing = false; }
+        };
     };
 } }
 
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..8bff78e 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,15 +56,17 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
 
-        this->env->write(Value(Type::Object), "");
+        {
+            Lib::Environment::DirectOutput direct(*this->env);
 
-        this->root_node->insert(items...);
+            this->env->write(Value(Type::Object), "");
 
-        this->env->write(Value(Type::Scope_End), "");
+            this->root_node->insert(items...);
+
+            this->env->write(Value(Type::Scope_End), "");
+        }
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 054278e..f194db7 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -56,16 +56,18 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
     }
     this->env->set_output(parser, source);
     this->env->shared_table_output.clear();
-    this->env->parsing = true;
 
-    auto& name = this->root_node->name();
-    this->env->write(Value(type), name);
+    {
+        Environment::DirectOutput direct(*this->env);
 
-    store_switch();
+        auto& name = this->root_node->name();
+        this->env->write(Value(type), name);
 
-    this->env->write(Value(Type::Scope_End), name);
+        store_switch();
+
+        this->env->write(Value(Type::Scope_End), name);
+    }
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From 2485fc303be5c87cdc58613b5ec26a8be0b4ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 35/43] fix: a node without a name can be written

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index c762911..204b457 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 63f57cfc296e7c24bcbbf1438ca92ece29727504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 36/43] fix: shared objects at the same address one after the
 other are different objects

---
 include/Srl/Environment.h | 19 ++++++++++++++++---
 include/Srl/Node.h        |  2 +-
 include/Srl/Resolve.hpp   |  2 +-
 src/lib/Node.cpp          |  8 ++++----
 src/lib/Tree.cpp          |  1 -
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index d946fbb..e83772b 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -48,9 +48,18 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
+        /* a stored object is kept, so that its address identifies it as long as the key is in use */
+        struct SharedKey {
+            size_t key;
+            std::shared_ptr<const void> object;
+
+            SharedKey(size_t key_, const std::shared_ptr<const void>& object_)
+                : key(key_), object(object_) { }
+        };
+
+        HTable<const void*, SharedKey>        shared_table_store   { 16 };
         /* objects written to the current output directly, without a node */
-        HTable<const void*, size_t>           shared_table_output  { 16 };
+        HTable<const void*, SharedKey>        shared_table_output  { 16 };
         HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
@@ -86,7 +95,11 @@ namespace Lib {
             Environment& env;
 
             DirectOutput(Environment& env_) : env(env_) { env.parsing = true; }
-            ~DirectOutput() { env.parsing = false; }
+            ~DirectOutput()
+            {
+                env.parsing = false;
+                env.shared_table_output.clear();
+            }
         };
     };
 } }
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..fc8c5e0 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,7 +126,7 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
+        std::pair<bool, uint64_t> insert_shared (const std::shared_ptr<const void>& obj);
         std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
 
         Node& insert_node  (const Node& node, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 9ea8eb0..098859f 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -767,7 +767,7 @@ namespace Srl { namespace Lib {
                 Switch<std::nullptr_t>::Insert(nullptr, node, name);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(p);
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 204b457..504183d 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -534,16 +534,16 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared (const shared_ptr<const void>& obj)
 {
-    bool exists; size_t* key;
+    bool exists; Environment::SharedKey* entry;
     auto& table = this->env->parsing
         ? this->env->shared_table_output
         : this->env->shared_table_store;
 
-    tie(exists, key) = table.insert(obj, table.num_entries());
+    tie(exists, entry) = table.insert((const void*)obj.get(), table.num_entries(), obj);
 
-    return { exists, *key };
+    return { exists, entry->key };
 }
 
 pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index f194db7..3621dd4 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,7 +55,6 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->shared_table_output.clear();
 
     {
         Environment::DirectOutput direct(*this->env);
-- 
2.43.0


From 571a1e1a7640655357147400e4c00d18bbd36d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 37/43] fix: items are restored by index also when the end of
 their scope was reached before

---
 include/Srl/Node.h   | 15 +++++++++++++++
 include/Srl/Node.hpp |  6 ++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index fc8c5e0..052d842 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -122,6 +122,21 @@ namespace Srl {
         Type          scope_type;
         bool          parsed;
 
+        /* items consumed from the source, these are not stored */
+        size_t        num_consumed_nodes  = 0;
+        size_t        num_consumed_values = 0;
+
+        /* index of an item among the stored ones, names stay as they are */
+        template<class ID>
+        static decltype(auto) stored_id (const ID& id, size_t num_consumed)
+        {
+            if constexpr(std::is_integral<ID>::value) {
+                return (size_t)id - num_consumed;
+            } else {
+                return (id);
+            }
+        }
+
         template<class... Args>
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..79c0342 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -107,10 +107,11 @@ namespace Srl {
     Node::paste_field (const ID& fieldID, T& o)
     {
         if(this->parsed) {
-            Lib::Switch<T>::Paste(o, this->node(fieldID), fieldID);
+            Lib::Switch<T>::Paste(o, this->node(stored_id(fieldID, this->num_consumed_nodes)), fieldID);
 
         } else {
             auto itm = this->consume_node(true, fieldID);
+            this->num_consumed_nodes++;
             Lib::Switch<T>::Paste(o, itm, fieldID);
             itm.consume_scope();
         }
@@ -121,10 +122,11 @@ namespace Srl {
     Node::paste_field (const ID& fieldID, T& o)
     {
         if(this->parsed) {
-            Lib::Switch<T>::Paste(o, this->value(fieldID), fieldID);
+            Lib::Switch<T>::Paste(o, this->value(stored_id(fieldID, this->num_consumed_values)), fieldID);
 
         } else {
             auto itm = this->consume_value(true, fieldID);
+            this->num_consumed_values++;
             Lib::Switch<T>::Paste(o, itm, fieldID);
         }
     }
-- 
2.43.0


From dad1d81ebd5b9422df12d5c1a1f1ff5819cc7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 38/43] fix: a member that cannot be restored is skipped, its
 items are not taken for those of the node around it

---
 include/Srl/Node.h      |  5 +++++
 include/Srl/Node.hpp    | 22 ++++++++++++++++++++--
 include/Srl/Resolve.hpp | 26 +++++++++++++-------------
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 052d842..941f902 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -152,6 +152,11 @@ namespace Srl {
         void  read_source (int scope_depth = 0);
 
         void  consume_scope ();
+
+        /* consumes the rest of the scope, also if the function throws */
+        template<class Fnc>
+        void  consume_scope_after (const Fnc& fnc);
+
         Node  consume_node  (bool throw_ex, const String& name);
         Value consume_value (bool throw_ex, const String& name);
 
diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 79c0342..6573ed1 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -102,6 +102,25 @@ namespace Srl {
         this->paste(tail...);
     }
 
+    template<class Fnc>
+    void Node::consume_scope_after(const Fnc& fnc)
+    {
+        try {
+            fnc();
+
+        } catch(...) {
+            try {
+                this->consume_scope();
+
+            } catch(...) {
+                /* nothing left to consume */
+            }
+            throw;
+        }
+
+        this->consume_scope();
+    }
+
     template<class T, class ID>
     typename std::enable_if<!std::is_same<T, Srl::Union>::value && TpTools::is_scope(Lib::Switch<T>::type), void>::type
     Node::paste_field (const ID& fieldID, T& o)
@@ -112,8 +131,7 @@ namespace Srl {
         } else {
             auto itm = this->consume_node(true, fieldID);
             this->num_consumed_nodes++;
-            Lib::Switch<T>::Paste(o, itm, fieldID);
-            itm.consume_scope();
+            itm.consume_scope_after([&] { Lib::Switch<T>::Paste(o, itm, fieldID); });
         }
     }
 
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 098859f..93e480e 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -482,13 +482,13 @@ namespace Srl { namespace Lib {
             }
         }
 
-        template<class Item>
+        template<class Item, class Fnc>
         static typename std::enable_if<std::is_same<Item, Value>::value, void>::type
-        Finish(Item&) { }
+        FinishAfter(Item&, const Fnc& fnc) { fnc(); }
 
-        template<class Item>
+        template<class Item, class Fnc>
         static typename std::enable_if<std::is_same<Item, Node>::value, void>::type
-        Finish(Item& node) { node.consume_scope(); }
+        FinishAfter(Item& node, const Fnc& fnc) { node.consume_scope_after(fnc); }
 
         template<class ID = String>
         static void Paste(T& c, Node& node, const ID& id = Aux::str_empty)
@@ -509,8 +509,7 @@ namespace Srl { namespace Lib {
                     if(node.parsed) {
                         break;
                     }
-                    ElemSwitch<T, E>::Insert(new_cont, itm, count++);
-                    Finish(itm);
+                    FinishAfter(itm, [&] { ElemSwitch<T, E>::Insert(new_cont, itm, count++); });
                 }
             }
 
@@ -959,19 +958,20 @@ namespace Srl { namespace Lib {
                     return;
                 }
 
-                auto key = itm.name().unwrap();
-                ht.insert(std::move(key), itm.template unwrap<V>());
-                FinishScope(itm);
+                FinishScopeAfter(itm, [&] {
+                    auto key = itm.name().unwrap();
+                    ht.insert(std::move(key), itm.template unwrap<V>());
+                });
             }
         }
 
-        template<class Item>
+        template<class Item, class Fnc>
         static typename std::enable_if<std::is_same<Item, Value>::value, void>::type
-        FinishScope(Item&) { }
+        FinishScopeAfter(Item&, const Fnc& fnc) { fnc(); }
 
-        template<class Item>
+        template<class Item, class Fnc>
         static typename std::enable_if<std::is_same<Item, Node>::value, void>::type
-        FinishScope(Item& node) { node.consume_scope(); }
+        FinishScopeAfter(Item& node, const Fnc& fnc) { node.consume_scope_after(fnc); }
     };
 
     namespace Aux {
-- 
2.43.0


From 6f0c4656474db92f265bb4febb69c90e9d2224d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 39/43] fix: a pointer is only replaced when the object it
 refers to was restored

---
 include/Srl/Resolve.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 93e480e..3e8c091 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -454,12 +454,12 @@ namespace Srl { namespace Lib {
             String type_id;
             ctx(Aux::str_type_id, type_id);
 
+            auto uptr = Lib::registrations()->create<U>(type_id);
+            uptr->srl_resolve(ctx);
+
             if(o != nullptr) {
                 delete o;
             }
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
-            uptr->srl_resolve(ctx);
             o = uptr.release();
         }
     };
@@ -701,20 +701,16 @@ namespace Srl { namespace Lib {
         template<class Item, class ID = String>
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
+            std::unique_ptr<E> uptr;
 
-            if(p != nullptr) {
-                delete p;
+            if(item.type() != Type::Null) {
+                uptr = Ctor<E>::Create_New();
+                Switch<E>::Paste(*uptr.get(), item, id);
             }
 
-            auto val_type = item.type();
-
-            if(val_type == Type::Null) {
-                p = nullptr;
-                return;
+            if(p != nullptr) {
+                delete p;
             }
-
-            auto uptr = Ctor<E>::Create_New();
-            Switch<E>::Paste(*uptr.get(), item, id);
             p = uptr.release();
         }
     };
-- 
2.43.0


From d2c044df0d69013061fb2e21f9233f4e660efbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 40/43] fix: an array is not restored from a source with more
 elements

---
 include/Srl/Resolve.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 3e8c091..8a3f21a 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -606,6 +606,17 @@ namespace Srl { namespace Lib {
                     count++;
                 }
 
+                auto itm = node.consume_item<E>();
+
+                if(!node.parsed) {
+                    /* there is another item */
+                    count++;
+
+                    if constexpr(TpTools::is_scope(Switch<E>::type)) {
+                        itm.consume_scope();
+                    }
+                }
+
                 Aux::check_size(len, count, id);
             }
         }
-- 
2.43.0


From a2e717ef9f8d5b9aa1e1ee003505a6877c54f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:31 +0000
Subject: [PATCH 41/43] fix: a registered class is only restored as a type it
 is derived from

---
 include/Srl/Registration.h | 40 +++++++++++++++++++++++++++++---------
 src/lib/Registration.cpp   |  6 +++---
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..9eac9be 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -14,13 +14,24 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Class {
+                void* (*make)    (void);
+                void  (*destroy) (void*);
+                /* throws the pointer, so that it can be caught as a pointer to any base of the class */
+                void  (*up_cast) (void*);
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                Class cls {
+                    []() -> void* { return Ctor<T>::Create_New().release(); },
+                    [](void* ptr) { delete static_cast<T*>(ptr); },
+                    [](void* ptr) { throw static_cast<T*>(ptr); }
+                };
+
+                bool exists = this->insert(id, cls);
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -30,21 +41,32 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* cls = this->find(id);
 
-                if(!make) {
+                if(!cls) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
-                return std::unique_ptr<T>(ptr);
+                auto* object = cls->make();
+
+                try {
+                    cls->up_cast(object);
+
+                } catch(T* ptr) {
+                    return std::unique_ptr<T>(ptr);
+
+                } catch(...) { }
+
+                cls->destroy(object);
+
+                throw Exception("Class id " + id.unwrap(false) + " is not of the requested type.");
             }
 
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Class> table { 16 };
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            bool   insert (const String& id, const Class& cls);
+            Class* find   (const String& id);
         };
 
         Registrations* registrations();
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..05c8343 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Registrations::Class& cls)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, cls);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Class* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From 0a8299907380704f9d4d978eb2eda74c743204cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 42/43] fix: the native format keeps the names it refers back
 to, the caller's memory may be gone

---
 src/lib/PSrl.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 36e81f7..932dfc3 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -124,16 +124,17 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     flag |= FNamed;
 
-    auto nstrings = this->hashed_strings.num_entries();
+    auto* index = this->hashed_strings.get(str);
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
-
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the memory of the name does not need to outlast this call */
+        auto nstrings = this->hashed_strings.num_entries();
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From 4cf0e8f66609854679b9e51c9dd7216ee0ea8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:30 +0000
Subject: [PATCH 43/43] fix: strings and binary data of 4 GiB or more are
 rejected instead of cut off

---
 include/Srl/Blocks.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Blocks.h b/include/Srl/Blocks.h
index 436c60d..a90ce92 100644
--- a/include/Srl/Blocks.h
+++ b/include/Srl/Blocks.h
@@ -4,6 +4,7 @@
 #include "Common.h"
 #include "Enums.h"
 #include "Type.h"
+#include "Exception.h"
 
 namespace Srl { namespace Lib {
 
@@ -28,7 +29,12 @@ namespace Srl { namespace Lib {
                 : ui64(0), size(sz), type(type_), encoding(encoding_) { }
 
             PackedBlock(const Lib::MemBlock& block, Type type_, Encoding encoding_)
-                : extern_data(block.ptr), size(block.size), type(type_), encoding(encoding_) { }
+                : extern_data(block.ptr), size(block.size), type(type_), encoding(encoding_)
+            {
+                if(this->size != block.size) {
+                    throw Exception("Data of 4 GiB or more is not supported.");
+                }
+            }
 
             union {
                 uint8_t        local_data[8];
-- 
2.43.0

