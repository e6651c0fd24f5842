From 896ecae8c5cfe9a2a00272c82fc882672b8229bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 01/40] fix: PersistentStorage refuses names that do not fit
 into a record

The name was silently truncated, so the store reported success, used up
space on every call and the object could never be read back.
---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..4152a4a 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -56,6 +56,11 @@ public:
             std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));
             return true;
         }
+        if (idx.size() > sizeof(NodeDescriptor::idx))
+        {
+            // the name doesn't fit into the descriptor, so the object couldn't be found
+            return false;
+        }
         constexpr auto recordSize = sizeof(Node<T>);
         if (free_head_ + recordSize > buffer_.size())
         {
-- 
2.43.0


From 053294acd1d607314d24845ef9d7ced716ccee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 02/40] fix: PersistentStorage refuses records longer than
 65535 bytes

The record size was truncated to 16 bits: the object could not be read
back and a later search could loop forever or leave the chain.
---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 4152a4a..2efcde6 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -62,6 +62,11 @@ public:
             return false;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max())
+        {
+            // the record size doesn't fit into the descriptor
+            return false;
+        }
         if (free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
-- 
2.43.0


From 91a9249e7f12163322c246564a656f14728f8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 03/40] fix: PersistentStorage ends the chain at a record
 shorter than its header

When an uninitialised region is opened, a record size of 1 to 5 bytes made
the record overlap the next one. A following store then overwrote part of
that size, so the stored object could not be read back or a search looped
forever.
---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..520f68e 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From 247337c021e55d566485f7dac802d4c35a20a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 04/40] fix: BufferedOut does not write a hex byte behind the
 end of the buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..12294de 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -156,6 +156,10 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
     char digits[] = "0123456789ABCDEF";
+    if (dataBuf.end() - pos < 2)
+    {
+        return *this;
+    }
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
     return *this;
-- 
2.43.0


From f92c0fd609526510dca9310fdea5d05ed812f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 05/40] fix: BufferedOut does not cut a number that is longer
 than its width

---
 BufferedOut.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 12294de..c4a70bb 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -125,15 +125,15 @@ BufferedOut &BufferedOut::operator<<(unsigned long long n)
 
 void BufferedOut::adjustPos(char* p)
 {
-    if (integerWidth > 0)
+    if (integerWidth > p - pos)
     {
         addPadding(p);
-        integerWidth = 0;
     }
     else
     {
         pos = p;
     }
+    integerWidth = 0;
 }
 
 BufferedOut &BufferedOut::operator<<(float f)
-- 
2.43.0


From 1db4d5d1d06e8069c37c76e606f8681afc7c3179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 06/40] fix: BufferedOut does not pad a number behind the end
 of the buffer

---
 BufferedOut.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index c4a70bb..85d50d5 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -125,6 +125,11 @@ BufferedOut &BufferedOut::operator<<(unsigned long long n)
 
 void BufferedOut::adjustPos(char* p)
 {
+    if (integerWidth > dataBuf.end() - pos)
+    {
+        // the padded number doesn't fit
+        return;
+    }
     if (integerWidth > p - pos)
     {
         addPadding(p);
-- 
2.43.0


From dc8c83a1a389f724a915beb7a719fb9cc755c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 07/40] fix: BufferedOut prints the sign of numbers between -1
 and 0, nothing if a number does not fit

The sign of a float whose integer part is zero was lost. When the integer
part did not fit, the rest of the buffer became text without having been
written.
---
 BufferedOut.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 85d50d5..7ec293c 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -9,8 +9,17 @@ namespace
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
     int n = int(val);
+    char* const begin = first;
+    if (val < 0 && n == 0 && first != last)
+    {
+        *(first++) = '-'; // the integer part doesn't carry the sign
+    }
     auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    if (ec != std::errc {})
+    {
+        return begin;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From aa17716cfc477d0ce0bdd259063b264aaf471ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 08/40] fix: BufferedOut treats a negative precision as no
 decimal digits

It was converted to a huge unsigned number, which filled the buffer.
---
 BufferedOut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 7ec293c..54a903e 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -6,7 +6,7 @@
 namespace
 {
 
-char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
+char* toChars(char* first, char* last, float val, int precision) noexcept
 {
     int n = int(val);
     char* const begin = first;
-- 
2.43.0


From db112831231653e8a89e963230c320a7995c63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 09/40] fix: BufferedOut::data() returns the whole text of
 buffers above 64 KiB

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From 2c99ab00568bc126ab10c8c56ac7d22a775f79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 10/40] fix: SimpleFrameBuffer stores 2-bit pixels in their own
 bits

The shift was 4 bits off (and negative for every third and fourth pixel).
---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..ecf3c57 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From 0bcb34ed00bc131f7ab037b995f311a2f397972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 11/40] fix: SimpleFrameBuffer has the requested width at every
 colour depth

The width was multiplied by the depth, so that the frame and its image were
up to 32 times too large. Rows are whole bytes, which is asserted.
---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index ecf3c57..901c985 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -88,7 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From 3c4830d93bcf954108b9824ddcea517134e99e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 12/40] fix: SimpleFrameBuffer supports 24 and 32 bits, rejects
 rows that are not whole bytes

The width assertion and the colour mask shifted by 2^depth and by 32 bits.
---
 graphics/SimpleFrameBuffer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 901c985..583eb3b 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,8 +9,8 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -88,6 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
+    static constexpr uint32_t colorMask = 0xFFFFFFFFu >> (32 - colorDepth);
     static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
-- 
2.43.0


From f4af0a7603388fa62b76114e67a5c12b8b8c6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 13/40] fix: EmbeddedFont ends a glyph's bitmap where the next
 one begins

The two ends were exchanged: the last glyph read behind the glyph table.
---
 graphics/EmbeddedFont.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..df6a8ed 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -24,8 +24,8 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
     const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
-                           fontDescriptor.bitmap.end() :
-                           fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
+                           fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset :
+                           fontDescriptor.bitmap.end();
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
                                            .effectiveSize = glyph.size,
                                            .offset = glyph.offset,
-- 
2.43.0


From 866e4ec8358fb5fff8f798c38bc715c4940505c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 14/40] fix: EmbeddedFont finds the glyphs of codes above 127
 where char is signed

---
 graphics/EmbeddedFont.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index df6a8ed..923dbeb 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,12 +6,13 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    const auto code = static_cast<uint8_t>(symbol); // char may be signed
+    if (code < fontDescriptor.first || code > fontDescriptor.last)
     {
         return getBitmap(fontDescriptor.first);
     }
-    auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    std::size_t pos = code - fontDescriptor.first;
+    if (code > '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
-- 
2.43.0


From ad241958f6c4eb6529190572e2c669de3c084fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 15/40] fix: EmbeddedFont shows the first glyph for the codes
 0x7F to 0x9F, which fonts do not have

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 923dbeb..07cb593 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -7,7 +7,7 @@ namespace embedded::fonts
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
     const auto code = static_cast<uint8_t>(symbol); // char may be signed
-    if (code < fontDescriptor.first || code > fontDescriptor.last)
+    if (code < fontDescriptor.first || code > fontDescriptor.last || (code > '~' && code < 0xA0))
     {
         return getBitmap(fontDescriptor.first);
     }
-- 
2.43.0


From d8bc7f564ab09b89dc36d7420fb938179c5b2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 16/40] fix: EmbeddedFont::getTextBounds counts the advance of
 the first character and every glyph's offset

The width of "!!" was 6 pixels although the text covers 13.
---
 graphics/EmbeddedFont.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 07cb593..df98a4a 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -40,21 +40,22 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int position = 0;
+        int minLeft = 0;
+        int maxRight = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = position + bitmap.offset.width;
+            const int right = left + bitmap.effectiveSize.width;
+            minLeft = (i == 0) ? left : std::min(minLeft, left);
+            maxRight = (i == 0) ? right : std::max(maxRight, right);
+            position += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.size.width = maxRight - minLeft;
+        result.topLeft.x = - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 25036b4845afb2e5873cbf7e49e269497012071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 17/40] fix: EncodingConverter accepts characters of four bytes

---
 gfx-font-converter/EncodingConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..9f20f9a 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -31,7 +31,7 @@ std::string EncodingConverter::convert(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -56,7 +56,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
-- 
2.43.0


From ce566353fb8f03b3aba129ce7f5b4feab0ee562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 18/40] fix: EncodingConverter starts a new character after a
 complete one

The bytes of the character before were converted again instead.
---
 gfx-font-converter/EncodingConverter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index 9f20f9a..be63007 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -39,6 +39,7 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -64,5 +65,6 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 41a280938ba361b32dd3a48fccd468b8ff291d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 19/40] fix: the font converter refuses glyphs that do not fit
 the font format

Sizes, offsets and advances were cut to 8 bits and bitmap offsets to 16, silently.
---
 gfx-font-converter/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..351401f 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -288,6 +288,7 @@ int main(int argc, char* argv[])
             std::vector<uint8_t> bitmapData;
             VectorStream vectorStream(bitmapData);
             BitStream bitStream(vectorStream);
+            size_t totalSize = 0;
             EncodingConverter iconvHolder(config.getEncoding().c_str(), "UCS-4LE");
             for (auto i = first, j = 0; i <= last; i = (i == '~') ? 0xA0 : i + 1, ++j)
             {
@@ -307,6 +308,14 @@ int main(int argc, char* argv[])
                 }
                 bitStream.flush();
                 const auto bitmapSize = bitmapData.size();
+                const auto advance = bitmapGlyphRec.root.advance.x >> 16;
+                const auto top = 1 - bitmapGlyphRec.top;
+                if (bitmap.width > 255 || bitmap.rows > 255 || advance < 0 || advance > 255 || totalSize > 0xFFFF
+                    || bitmapGlyphRec.left < -128 || bitmapGlyphRec.left > 127 || top < -128 || top > 127)
+                {
+                    throw std::runtime_error("the glyph of code " + std::to_string(i) + " does not fit the font format");
+                }
+                totalSize += bitmapSize;
                 table.emplace_back(GlyphData { { static_cast<uint16_t>(bitmapSize), {
                         static_cast<unsigned char>(bitmap.width), static_cast<unsigned char>(bitmap.rows) }
                                             , static_cast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16), {
-- 
2.43.0


From 18cd762fb846a22cc9b2202dce276c01217c1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 20/40] fix: Arduino PacketUart reports only the bytes received

---
 arduino/PacketUart.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..79561a8 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -5,6 +5,25 @@
 namespace embedded
 {
 
+namespace
+{
+
+// Reads up to and including the end byte; stops earlier if the buffer is full or the next byte doesn't arrive in time
+uint16_t readUntil(HardwareSerial& uart, uint8_t* buffer, uint16_t bufferSize, uint8_t endByte)
+{
+    uint16_t currentPos = 0;
+    while (currentPos < bufferSize && uart.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
+    return currentPos;
+}
+
+}
+
 static_assert(sizeof(HardwareSerial) == sizeof(PacketUart::UartDevice));
 static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
@@ -43,14 +62,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t t
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
-    uint16_t currentPos = 0;
     const auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    const auto currentPos = readUntil(uartDevice, buffer, bufferSize, endByte);
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -61,6 +78,10 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize == 0)
+    {
+        return 0;
+    }
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -75,8 +96,7 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            currentPos += readUntil(uartDevice, buffer + currentPos, bufferSize - currentPos, endByte);
             break;
         }
     }
-- 
2.43.0


From fe7c5b4413305b240824ae5810e964e73adef4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 21/40] fix: Arduino PacketUart timeouts survive the
 wrap-around of millis()

---
 arduino/PacketUart.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 79561a8..ffa0eb9 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -29,10 +29,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const uint32_t startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (millis() - startTime < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -88,9 +87,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    const uint32_t startTime = millis();
+    while (timeoutMilliseconds == 0 || millis() - startTime < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From dc95b4ebef9bd80993957ef32b1cd21e310dba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 22/40] fix: ESP32 PacketUart reports no bytes when the UART
 driver fails

---
 esp32-esp-idf/PacketUart.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..bd74f8f 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,14 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    const auto result = uartDevice.sendBlocking(buffer, bufferSize);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 87816e177257e6f00592cc1d2229bb431a63e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 23/40] fix: ESP32 PacketUart timeouts survive tick wrap-around
 and bound the whole call

---
 esp32-esp-idf/PacketUart.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index bd74f8f..982e398 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -22,12 +22,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while (currentPos < bufferSize
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -48,26 +48,24 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    bool started = false;
+    while (!started && (elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
-        {
-            if (buffer[currentPos] == startByte)
-                break;
-        }
-        else
-        {
-            return 0;
-        }
+        started = uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1
+                && buffer[currentPos] == startByte;
+    }
+    if (!started)
+    {
+        return 0;
     }
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From ce5f746488b3fa8ba6043ea9a0dc621436bfc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 24/40] fix: ESP32 SpiBus::release frees the bus when the
 device was removed

---
 esp32-esp-idf/SpiBus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..57a0530 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -79,7 +79,7 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) == ESP_OK)
         {
             spiDevice = nullptr;
             return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
-- 
2.43.0


From e01f1732c5c98e3e85802e76e7f150dc19a430d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 25/40] fix: ESP32 SpiBus gives the bus back when
 initialization or release fails midway

---
 esp32-esp-idf/SpiBus.cpp | 24 +++++++++++++++++++-----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 57a0530..9c8a758 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -62,6 +62,8 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         return false;
     }
 
+    busInitialized = true;
+
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
     devcfg.clock_speed_hz=static_cast<int>(frequency);
@@ -72,19 +74,31 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        release();
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice) == ESP_OK)
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
+        {
+            return false;
+        }
+        spiDevice = nullptr;
+    }
+    if (busInitialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        busInitialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..a30ebfe 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -27,6 +27,7 @@ public:
 private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
+    bool busInitialized = false;
     uint32_t maxTransferSize = 0;
 };
 
-- 
2.43.0


From fd6b0b9b08d5845da47de824f9c9c81bd96770f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 26/40] fix: ESP32 AnalogPin gives the converter unit back
 after a read

---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From f28748a6af58112cfd31cec3a622964095add4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 27/40] fix: ESP32 ligntSleep survives tick wrap-around and
 long sleeps

---
 esp32-esp-idf/SleepFunctions.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..2be917d 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,19 +8,14 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint64_t wait = getMicrosecondTicks() + milliseconds * 1000ull;
 
-    while ((getMillisecondTicks() < wait))
+    for (uint64_t current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup(wait - current);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
-            {
-                delay(wait - current);
-            }
+            delay((wait - current) / 1000);
         }
     }
 }
-- 
2.43.0


From e216a22eb80c91318683c156c4fe1e09756d5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 28/40] fix: the font converter refuses a line height that does
 not fit the font format

A line height over 255 was written into a header that does not compile.
---
 gfx-font-converter/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 351401f..ed62ce9 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -366,8 +366,12 @@ int main(int argc, char* argv[])
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
         {
-            writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last,
-                            ftFace.getSizeMetricHeihgt());
+            const auto lineHeight = static_cast<int>(ftFace.getSizeMetricHeihgt());
+            if (lineHeight < 0 || lineHeight > 255)
+            {
+                throw std::runtime_error("the line height " + std::to_string(lineHeight) + " does not fit the font format");
+            }
+            writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last, lineHeight);
         }
         else
         {
-- 
2.43.0


From 656ac77e415f731ab5e4ef01a0c3808679c2df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 29/40] fix: the font converter reports FreeType errors also
 when FreeType has no error texts

FT_Error_String returns a null pointer when FreeType is built without
error texts (the default); a missing or broken font file crashed the
converter.
---
 gfx-font-converter/FreeTypeFace.cpp    | 7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp | 4 ++--
 gfx-font-converter/FreeTypeLibrary.h   | 7 +++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..349d871 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,6 +1,7 @@
 #include "FreeTypeFace.h"
 
 #include "FreeTypeGlyph.h"
+#include "FreeTypeLibrary.h"
 
 #include <string>
 #include <stdexcept>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getFreeTypeErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..e42626a 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -13,7 +13,7 @@ FreeTypeLibrary::FreeTypeLibrary()
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getFreeTypeErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +26,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getFreeTypeErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
diff --git a/gfx-font-converter/FreeTypeLibrary.h b/gfx-font-converter/FreeTypeLibrary.h
index bacbace..1be4320 100644
--- a/gfx-font-converter/FreeTypeLibrary.h
+++ b/gfx-font-converter/FreeTypeLibrary.h
@@ -6,6 +6,13 @@
 
 class FreeTypeFace;
 
+// FT_Error_String returns nullptr when FreeType is built without the error texts
+inline std::string getFreeTypeErrorText(FT_Error errorCode)
+{
+    const char* const text = FT_Error_String(errorCode);
+    return text != nullptr ? std::string(text) : "error code " + std::to_string(errorCode);
+}
+
 class FreeTypeLibrary
 {
 public:
-- 
2.43.0


From a60b188d5573aed07162193abc4ba1e716b87682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 30/40] fix: the font converter does not report success when
 writing fails

A full disk (or any other write error) left a truncated file behind and
the converter still returned 0.
---
 gfx-font-converter/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index ed62ce9..fc71f45 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -206,6 +206,15 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+void closeCompletely(std::ofstream &outputFile, const std::string &outputFileName)
+{
+    outputFile.close();
+    if (!outputFile)
+    {
+        throw std::runtime_error("output file " + outputFileName + " was not written completely");
+    }
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -250,6 +259,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
     const auto view = bufferedOut.asStringView();
     outputFile.write(view.data(), view.end() - view.begin());
+    closeCompletely(outputFile, outputFileName);
 }
 
 int main(int argc, char* argv[])
@@ -339,6 +349,7 @@ int main(int argc, char* argv[])
                 {
                     outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                 }
+                closeCompletely(outputFile, bitmapsFileName);
             }
             {
                 std::ofstream outputFile;
@@ -362,6 +373,7 @@ int main(int argc, char* argv[])
                     offset += glyph.bitmapData.size();
                     outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
                 }
+                closeCompletely(outputFile, glyphsFileName);
             }
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
-- 
2.43.0


From 4b77eba40582f98aee34f0280852d721ec0b58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 31/40] fix: the font converter accepts the documented long
 options

README.md documents --font, --size, --dpi, --encoding and --output; they
were refused.
---
 gfx-font-converter/FontConverterConfig.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 0b5e7a3..7ad740d 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -8,7 +8,15 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
     int opt;
     encoding = "ASCII";
-    while ((opt = getopt(argc, argv, "f:o:d:s:e:bh")) != -1)
+    static const option longOptions[] = {
+            { "font", required_argument, nullptr, 'f' },
+            { "output", required_argument, nullptr, 'o' },
+            { "dpi", required_argument, nullptr, 'd' },
+            { "size", required_argument, nullptr, 's' },
+            { "encoding", required_argument, nullptr, 'e' },
+            { nullptr, 0, nullptr, 0 }
+    };
+    while ((opt = getopt_long(argc, argv, "f:o:d:s:e:bh", longOptions, nullptr)) != -1)
     {
         switch (opt)
         {
-- 
2.43.0


From 0ff61d99662a40f420d8e0dfadadc3d0082026a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 32/40] fix: the font converter reports a malformed number on
 the command line

"-s abc" ended it with an unhandled exception.
---
 gfx-font-converter/main.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index fc71f45..299197e 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -264,18 +264,18 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
 int main(int argc, char* argv[])
 {
-    FontConverterConfig config(argc, argv);
-    const auto &fontFileName = config.getFontFileName();
-    if (config.getPrintHelp() || fontFileName.empty())
-    {
-        std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
-                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
-                  << std::endl;
-        return 1;
-    }
-
     try
     {
+        FontConverterConfig config(argc, argv);
+        const auto &fontFileName = config.getFontFileName();
+        if (config.getPrintHelp() || fontFileName.empty())
+        {
+            std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
+                      << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
+                      << std::endl;
+            return 1;
+        }
+
         const std::filesystem::path fontFilePath(fontFileName);
         const auto
                 fontName =
-- 
2.43.0


From 2ecb2a1cc93a66b75336629e4c6076134b0c21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 33/40] fix: font file names that are not C++ identifiers gave
 headers that do not compile

---
 gfx-font-converter/main.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 299197e..395e530 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -1,5 +1,6 @@
 #include "graphics/GFXFontsAdapter.h"
 
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iomanip>
@@ -215,6 +216,20 @@ void closeCompletely(std::ofstream &outputFile, const std::string &outputFileNam
     }
 }
 
+// The name of the font in the generated code: whatever a C++ identifier cannot contain becomes an underscore.
+std::string toIdentifier(std::string name)
+{
+    for (char &c: name)
+    {
+        const auto code = static_cast<unsigned char>(c);
+        if (code < 0x80 && !std::isalnum(code))
+        {
+            c = '_';
+        }
+    }
+    return !name.empty() && std::isdigit(static_cast<unsigned char>(name.front())) ? '_' + name : name;
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -227,8 +242,9 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
         throw std::runtime_error("output file " + outputFileName + " was not opened");
     }
     std::cout << "Writing output to " << outputFileName << std::endl;
+    const auto identifier = toIdentifier(fontName);
     {
-        HexStringStream hexStringStream(outputFile, fontName);
+        HexStringStream hexStringStream(outputFile, identifier);
 
         for (const auto &glyph: glyphData)
         {
@@ -239,7 +255,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
         }
     }
     {
-        TextGlyphStream textGlyphStream(outputFile, fontName, encoding);
+        TextGlyphStream textGlyphStream(outputFile, identifier, encoding);
         for (const auto &glyph: glyphData)
         {
             textGlyphStream << glyph.descriptor;
@@ -249,9 +265,9 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
     std::array<char, 1024> buffer {};
     embedded::BufferedOut bufferedOut(buffer);
     // Output font structure
-    bufferedOut << "const GFXfont " << fontName << " = {\n";
-    bufferedOut << "  " << fontName << "Bitmaps,\n";
-    bufferedOut << "  " << fontName << "Glyphs,\n";
+    bufferedOut << "const GFXfont " << identifier << " = {\n";
+    bufferedOut << "  " << identifier << "Bitmaps,\n";
+    bufferedOut << "  " << identifier << "Glyphs,\n";
 
     bufferedOut << "  0x" << (uint8_t)first << ", 0x" << (uint8_t)last << ", ";
     bufferedOut << sizeMetricsHeight;
-- 
2.43.0


From a5e71671ce81da04fea594164c3f55bd0cae4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 34/40] fix: the font converter started through the search path
 wrote into the current directory, not next to itself

---
 gfx-font-converter/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 395e530..be21749 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -299,6 +299,12 @@ int main(int argc, char* argv[])
                 std::to_string(config.getLastChar() > 127 ? 8 : 7) + "b";
         auto outputDir = std::filesystem::is_directory(config.getOutputDirectory()) ?
                          std::filesystem::path(config.getOutputDirectory()) : std::filesystem::path(argv[0]).parent_path();
+        if (outputDir.empty())
+        {
+            // started by its bare name and found through the search path
+            std::error_code error;
+            outputDir = std::filesystem::read_symlink("/proc/self/exe", error).parent_path();
+        }
 
         const auto dpi = config.getDPI();
         const FT_F26Dot6 fontSize = config.getFontSize() << 6;
-- 
2.43.0


From 3b842a95bd81e45c42724ce71defe79943534e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 35/40] fix: letters which can be combined with an accent
 (CP1258, CP1255, BIG5-HKSCS) were not converted

---
 gfx-font-converter/EncodingConverter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index be63007..29ca246 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -39,6 +39,11 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    if (outBytesLeft == sizeof(outBuf))
+    {
+        // the character is kept back because it could be combined with the next one
+        iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
+    }
     inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
@@ -65,6 +70,11 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    if (outBytesLeft == sizeof(outBuf))
+    {
+        // the character is kept back because it could be combined with the next one
+        iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
+    }
     inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 0665af7acbba208feae7b661d7204382df33caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:33 +0000
Subject: [PATCH 36/40] fix: a font size of 2^25 points and more overflowed and
 gave glyphs of another size

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index be21749..6a99855 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -307,7 +307,7 @@ int main(int argc, char* argv[])
         }
 
         const auto dpi = config.getDPI();
-        const FT_F26Dot6 fontSize = config.getFontSize() << 6;
+        const FT_F26Dot6 fontSize = FT_F26Dot6(config.getFontSize()) << 6;
         const auto first = config.getFirstChar();
         const auto last = config.getLastChar();
         std::vector<GlyphData> table;
-- 
2.43.0


From 1c773999fb8d2089c5fb1179e96533cb46aeb2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:37 +0000
Subject: [PATCH 37/40] fix: a size or resolution with other characters behind
 the number was accepted

---
 gfx-font-converter/FontConverterConfig.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 7ad740d..cefb152 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -3,6 +3,23 @@
 #include <getopt.h>
 #include <cctype>
 #include <algorithm>
+#include <stdexcept>
+
+namespace
+{
+
+int toNumber(const std::string& text)
+{
+    std::size_t length = 0;
+    const int number = std::stoi(text, &length);
+    if (length != text.size())
+    {
+        throw std::invalid_argument(text + " is not a number");
+    }
+    return number;
+}
+
+} // namespace
 
 FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
@@ -27,10 +44,10 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
                 outputDirectory = optarg;
                 break;
             case 'd':
-                DPI = std::stoi(optarg);
+                DPI = toNumber(optarg);
                 break;
             case 's':
-                fontSize = std::stoi(optarg);
+                fontSize = toNumber(optarg);
                 break;
             case 'e':
                 encoding = optarg;
-- 
2.43.0


From 2f125c49567550e3585266ee2e6b1bc886b070b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:58 +0000
Subject: [PATCH 38/40] fix: grey bitmap fonts were read as if they were
 monochrome

---
 gfx-font-converter/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 6a99855..a284097 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -328,6 +328,11 @@ int main(int argc, char* argv[])
 
                 const auto &bitmapGlyphRec = glyph.getBitmapGlyph();
                 const auto &bitmap = bitmapGlyphRec.bitmap;
+                if (bitmap.rows != 0 && bitmap.width != 0 && bitmap.pixel_mode != FT_PIXEL_MODE_MONO)
+                {
+                    // bitmap fonts may be grey or coloured
+                    throw std::runtime_error("the glyph of code " + std::to_string(i) + " is not monochrome");
+                }
 
                 for (unsigned y = 0; y < bitmap.rows; ++y)
                 {
-- 
2.43.0


From 507200f736713f6fe88d80cb800bb81b2f14af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:12 +0000
Subject: [PATCH 39/40] fix: serial output of more than 65535 characters at
 once was cut

---
 arduino/SerialOut.cpp       | 8 +++++++-
 esp32-esp-idf/SerialOut.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/arduino/SerialOut.cpp b/arduino/SerialOut.cpp
index 1d434ea..3df37ec 100644
--- a/arduino/SerialOut.cpp
+++ b/arduino/SerialOut.cpp
@@ -4,6 +4,12 @@
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    do
+    {
+        const auto part = dataView.first(0xFFFF); // the largest size Send takes
+        uartDevice.Send(part.begin(), part.size(), 100);
+        dataView = dataView.subspan(part.size());
+    }
+    while (!dataView.empty());
     bufferedOut.clear();
 }
diff --git a/esp32-esp-idf/SerialOut.cpp b/esp32-esp-idf/SerialOut.cpp
index 1d434ea..3df37ec 100644
--- a/esp32-esp-idf/SerialOut.cpp
+++ b/esp32-esp-idf/SerialOut.cpp
@@ -4,6 +4,12 @@
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    do
+    {
+        const auto part = dataView.first(0xFFFF); // the largest size Send takes
+        uartDevice.Send(part.begin(), part.size(), 100);
+        dataView = dataView.subspan(part.size());
+    }
+    while (!dataView.empty());
     bufferedOut.clear();
 }
-- 
2.43.0


From 73afcc604075bb6887728290e815ca46c7041349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:54 +0000
Subject: [PATCH 40/40] fix: font file names with non-ASCII characters could
 give headers that do not compile

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index a284097..bb8802f 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -222,7 +222,7 @@ std::string toIdentifier(std::string name)
     for (char &c: name)
     {
         const auto code = static_cast<unsigned char>(c);
-        if (code < 0x80 && !std::isalnum(code))
+        if (code >= 0x80 || !std::isalnum(code))
         {
             c = '_';
         }
-- 
2.43.0

