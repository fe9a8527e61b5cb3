From b8df56449c391c679a37933e1685ed62b7490d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 01/24] fix: keep padded integers inside the buffer and never
 truncate a number wider than the field

---
 BufferedOut.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..fd5e474 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -43,6 +43,11 @@ namespace embedded
 void BufferedOut::addPadding(const char* p)
 {
     auto realSize = p - pos;
+    if (integerWidth > dataBuf.end() - pos)
+    {
+        // the padded number doesn't fit into the buffer
+        return;
+    }
     if (realSize < integerWidth)
     {
         memmove(pos + integerWidth - realSize, pos, realSize);
@@ -53,7 +58,7 @@ void BufferedOut::addPadding(const char* p)
             *(paddingPos++) = fillChar;
         }
     }
-    pos += integerWidth;
+    pos += realSize < integerWidth ? integerWidth : realSize;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From 041403b1227094813128540e670ed94cd5b581d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 02/24] fix: do not write the hex digits of a byte past the end
 of the buffer

---
 BufferedOut.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index fd5e474..4c8f038 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -160,6 +160,11 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
+    if (dataBuf.end() - pos < 2)
+    {
+        // both digits have to fit into the buffer
+        return *this;
+    }
     char digits[] = "0123456789ABCDEF";
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
-- 
2.43.0


From 4bf41b85d8f9828692d847bdc6d349f68166ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 03/24] fix: append nothing for a float whose integer part is
 not representable or does not fit

---
 BufferedOut.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 4c8f038..3f23b90 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -8,9 +8,19 @@ namespace
 
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
+    if (!(std::abs(val) < 2147483648.0f))
+    {
+        // NaN or the integer part can't be represented
+        return first;
+    }
     int n = int(val);
     auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    if (ec != std::errc {})
+    {
+        // the integer part doesn't fit into the buffer
+        return first;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From ff02092bbfee8f7551560229297e070c69f7d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 04/24] fix: keep the sign of floats between -1 and 0

---
 BufferedOut.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 3f23b90..7672c04 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -14,7 +14,17 @@ char* toChars(char* first, char* last, float val, unsigned int precision) noexce
         return first;
     }
     int n = int(val);
-    auto [pos, ec] = std::to_chars(first, last, n);
+    char* numberPos = first;
+    if (val < 0 && n == 0 && precision > 0)
+    {
+        // the sign of the fraction, the integer part has no sign
+        if (last - first < 2)
+        {
+            return first;
+        }
+        *(numberPos++) = '-';
+    }
+    auto [pos, ec] = std::to_chars(numberPos, last, n);
     if (ec != std::errc {})
     {
         // the integer part doesn't fit into the buffer
-- 
2.43.0


From ef7bfd1adaa6dc7f5ae7acf19014116be3c6d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 05/24] fix: report the whole content from BufferedOut::data()
 when it exceeds 64 KiB

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From 2b50cf2c2d0e3801227fe83e86183dcb936dc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 06/24] fix: refuse keys longer than a record can hold instead
 of storing a truncated one

---
 PersistentStorage.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..3f3b325 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -57,6 +57,12 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        static_assert(recordSize <= std::numeric_limits<std::uint16_t>::max(), "The object is too big for a record");
+        if (idx.size() > sizeof(NodeDescriptor::idx))
+        {
+            // the key can't be stored without truncation
+            return false;
+        }
         if (free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
-- 
2.43.0


From 6bbad996a80538b71fce07d6acfc20f6f30407a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/24] fix: shift 2-bit pixels into the byte position their
 mask selects

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..ecf3c57 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From e14172a68d5f3fee7d4da969491c86cc82c991c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 08/24] fix: report the framebuffer width in pixels for every
 color depth

---
 graphics/SimpleFrameBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index ecf3c57..22af0a5 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,7 +9,7 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
         selectedColor = (1 << colorDepth) - 1;
     }
     int getWidth() const override { return effectiveWidth; }
@@ -88,7 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From e2bf7f53e029e95dcd8d9755f891ec8f2679d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 09/24] fix: compute the color mask of 32-bit framebuffers
 without overflowing the shift

---
 graphics/SimpleFrameBuffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 22af0a5..7b7f988 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -10,7 +10,7 @@ public:
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
         static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -89,6 +89,7 @@ public:
 private:
     static constexpr int bitsPerPixel = colorDepth;
     static constexpr int effectiveWidth = width;
+    static constexpr uint32_t colorMask = 0xFFFFFFFFu >> (32 - colorDepth);
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From fd9c6b67589b383668c5d827f85cdce21bf57347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 10/24] fix: end the record chain at a record too small to hold
 its own header when reopening

---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..3ab10f3 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From 4a18bc39bdb100fc1f1f40c9388e3b21a2c1c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 11/24] fix: look up characters above 0x7F by their unsigned
 code and fall back for unprintable ones

---
 graphics/EmbeddedFont.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..d50e40f 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,12 +6,13 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    const auto code = static_cast<uint8_t>(symbol);
+    if (code < fontDescriptor.first || code > fontDescriptor.last || (code > '~' && code < 0xA0))
     {
         return getBitmap(fontDescriptor.first);
     }
-    auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    auto pos = code - fontDescriptor.first;
+    if (code > '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
-- 
2.43.0


From 8672a9fe349d88b3f9a73d3a2d3a049e908bab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 12/24] fix: end a glyph's bitmap where the next glyph's
 begins, without reading past the glyph table

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index d50e40f..3f83980 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -24,7 +24,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From 3808696b27f45edf2350b21375b08ed1d8b878ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 13/24] fix: let text bounds cover glyph offsets and every
 glyph's right edge

---
 graphics/EmbeddedFont.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 3f83980..48aa0b7 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -40,21 +40,22 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int minLeft = 0;
+        int maxRight = 0;
+        int position = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = position + bitmap.offset.width;
+            const int right = left + bitmap.effectiveSize.width;
+            minLeft = (i == 0) ? left : std::min(minLeft, left);
+            maxRight = (i == 0) ? right : std::max(maxRight, right);
+            position += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.topLeft.x = - minLeft;
+        result.size.width = maxRight - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 8bd3a50cd7db2c58b1003ff6498c9b1718294f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 14/24] fix: forget the bytes of a converted character and keep
 all bytes of an incomplete one

---
 gfx-font-converter/EncodingConverter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..be63007 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -31,7 +31,7 @@ std::string EncodingConverter::convert(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -39,6 +39,7 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -56,7 +57,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -64,5 +65,6 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 11afe0cb22a37dfb7320ae703d9958e6b6db42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 15/24] fix: honour Arduino receive timeouts when the
 millisecond counter wraps around

---
 arduino/PacketUart.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..69b6945 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -11,9 +11,8 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
     auto startTime = millis();
-    auto maxTime = startTime + timeout;
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (millis() - startTime < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -68,8 +67,7 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         uartDevice.setTimeout(timeoutMilliseconds);
     }
     auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    while (timeoutMilliseconds == 0 || millis() - startTime < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From ca449f2457ce5252e3fd8d9097c334bd2d5c695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 16/24] fix: report only received bytes from Arduino
 ReceiveUntil and ReceiveBetween, inside the buffer

---
 arduino/PacketUart.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 69b6945..0f03eb9 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -5,6 +5,24 @@
 namespace embedded
 {
 
+namespace
+{
+uint16_t readUntil(PacketUart::UartDevice& uart, uint8_t* buffer, uint16_t bufferSize, uint8_t endByte)
+{
+    uint16_t currentPos = 0;
+    uint8_t nextByte;
+    while (currentPos < bufferSize && uart.readBytes(&nextByte, 1) == 1)
+    {
+        buffer[currentPos++] = nextByte;
+        if (nextByte == endByte)
+        {
+            break;
+        }
+    }
+    return currentPos;
+}
+}
+
 static_assert(sizeof(HardwareSerial) == sizeof(PacketUart::UartDevice));
 static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
@@ -48,8 +66,7 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    currentPos += readUntil(uartDevice, buffer, bufferSize, endByte);
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -60,6 +77,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+        return 0;
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -73,8 +92,7 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            currentPos += readUntil(uartDevice, buffer + currentPos, bufferSize - currentPos, endByte);
             break;
         }
     }
-- 
2.43.0


From 3d3b2fec58dc7c5bdbc309f964be8607fe5f46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 17/24] fix: honour ESP32 receive timeouts when the clock wraps
 and return nothing from ReceiveBetween without a start byte

---
 esp32-esp-idf/PacketUart.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..d54a28c 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -20,12 +20,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -46,26 +46,28 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    bool started = false;
+    while (!started && elapsed <= timeoutMilliseconds)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
-        {
-            if (buffer[currentPos] == startByte)
-                break;
-        }
-        else
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) != 1)
         {
             return 0;
         }
+        started = buffer[currentPos] == startByte;
+        elapsed = embedded::getMillisecondTicks() - startTime;
+    }
+    if (!started)
+    {
+        return 0;
     }
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From ba53a67bd327767b3271885c3d956e12fd1fbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 18/24] fix: report zero bytes instead of 65535 when an ESP32
 UART transfer fails

---
 esp32-esp-idf/PacketUart.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index d54a28c..948a13a 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,12 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return std::max(uartDevice.receiveBlocking(buffer, bufferSize, timeout), 0);
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    return std::max(uartDevice.sendBlocking(buffer, bufferSize), 0);
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 67f04d95eaeabc7f9cf2d1ea9c5a055713d5e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 19/24] fix: free the ESP32 SPI bus when removing its device
 succeeded, not when it failed

---
 esp32-esp-idf/SpiBus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..57a0530 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -79,7 +79,7 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) == ESP_OK)
         {
             spiDevice = nullptr;
             return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
-- 
2.43.0


From b6ebc2068ebc25445b3acefded0191906c973d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 20/24] fix: free the ESP32 SPI bus when its device cannot be
 added and refuse transfers without a device

---
 esp32-esp-idf/SpiBus.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 57a0530..f5ad2b7 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -8,6 +8,10 @@
 
 bool embedded::SpiBus::transfer(const uint8_t *sendBytes, uint8_t *receiveBytes, uint32_t length)
 {
+    if (spiDevice == nullptr)
+    {
+        return false;
+    }
     spi_transaction_t transaction{};
     transaction.user= nullptr;
     while (length > 0)
@@ -72,7 +76,12 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
-- 
2.43.0


From 0f118b7fbf09bd2f06ababc4e16daa1a9c4793ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 21/24] fix: release the ADC unit after every analog read

---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From 06f46e8c16ce4fbebf68c22133a60c9838f62105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 22/24] fix: round ESP32 delays up to whole ticks instead of
 cutting them short

---
 esp32-esp-idf/Delays.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/Delays.cpp b/esp32-esp-idf/Delays.cpp
index 4fe1031..f6ec4c9 100644
--- a/esp32-esp-idf/Delays.cpp
+++ b/esp32-esp-idf/Delays.cpp
@@ -7,7 +7,7 @@
 
 void embedded::delay(uint32_t milliseconds)
 {
-    vTaskDelay(milliseconds / portTICK_PERIOD_MS);
+    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0));
 }
 
 uint32_t embedded::getMillisecondTicks()
-- 
2.43.0


From 6411617aa6a3cd2288e5fe72149b9917898268e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 23/24] fix: make light sleep last as long as requested for
 long durations and across clock wrap-around

---
 esp32-esp-idf/SleepFunctions.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..4c7c337 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,20 +8,18 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint32_t tickstart = getMillisecondTicks();
+    uint32_t elapsed = 0;
 
-    while ((getMillisecondTicks() < wait))
+    while (elapsed < milliseconds)
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        const uint32_t rest = milliseconds - elapsed;
+        esp_sleep_enable_timer_wakeup(rest * 1000ull);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
-            {
-                delay(wait - current);
-            }
+            delay(rest);
         }
+        elapsed = getMillisecondTicks() - tickstart;
     }
 }
 
-- 
2.43.0


From a4879b182288778b8c63011b92565442dd647609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 24/24] fix: retry freeing the ESP32 SPI bus when an earlier
 release could not free it

---
 esp32-esp-idf/SpiBus.cpp | 18 +++++++++++++-----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index f5ad2b7..8794871 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -65,6 +65,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     {
         return false;
     }
+    busInitialized = true;
 
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
@@ -78,7 +79,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
 
     if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
     {
-        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        release();
         return false;
     }
     return true;
@@ -88,12 +89,19 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice) == ESP_OK)
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        spiDevice = nullptr;
+    }
+    if (busInitialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
+        {
+            return false;
+        }
+        busInitialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..dc9c7ac 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -28,6 +28,7 @@ private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
     uint32_t maxTransferSize = 0;
+    bool busInitialized = false;
 };
 
 }
-- 
2.43.0

