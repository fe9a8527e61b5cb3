"""Behaviour-preserving edits, to see whether the checks stay quiet: python3 tools/refactors.py [id ...]
Each one is applied to a scratch clone of /repo and the listed checks are run against it (IRV_REPO)."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def r(id, props, *edits):
    R[id] = (props.split(), edits)


BO = "BufferedOut.cpp"
r("bo-append", "B01 B03", (BO, """    while (*str && dst != end)
    {
        *(dst++) = *(str++);
    }
    return dst;""", """    for (; dst != end && *str != '\\0'; ++dst, ++str)
    {
        *dst = *str;
    }
    return dst;"""))
r("bo-int", "B01 B02", (BO, """BufferedOut &BufferedOut::operator<<(int n)
{
    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);
    if (ec == std::errc {})
    {
        adjustPos(p);
    }
    return *this;
}""", """BufferedOut &BufferedOut::operator<<(int n)
{
    return *this << static_cast<long>(n);
}"""))
r("bo-int2", "B01 B02", (BO, """BufferedOut &BufferedOut::operator<<(unsigned long n)
{
    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);
    if (ec == std::errc {})
    {
        adjustPos(p);
    }
    return *this;
}""", """BufferedOut &BufferedOut::operator<<(unsigned long n)
{
    char* const first = pos;
    char* const last = dataBuf.end();
    const std::to_chars_result result = std::to_chars(first, last, n);
    if (result.ec != std::errc {})
    {
        return *this;
    }
    adjustPos(result.ptr);
    return *this;
}"""))
r("bo-padding", "B01 B02", (BO, """        memmove(pos + integerWidth - realSize, pos, realSize);
        auto paddingSize = integerWidth - realSize;
        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }""", """        const auto paddingSize = integerWidth - realSize;
        memmove(pos + paddingSize, pos, realSize);
        memset(pos, fillChar, paddingSize);"""))
r("bo-padding2", "B01 B02", (BO, """        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }""", """        for (decltype(paddingSize) i = 0; i != paddingSize; ++i)
        {
            pos[i] = fillChar;
        }"""))
r("bo-hex", "B01 B04", (BO, """    char digits[] = "0123456789ABCDEF";
    *(pos++) = digits[(b & 0xF0u) >> 4];
    *(pos++) = digits[b & 0xFu];""", """    const auto digit = [](unsigned value) { return char(value < 10 ? '0' + value : 'A' + (value - 10)); };
    pos[0] = digit(b >> 4);
    pos[1] = digit(b % 16);
    pos += 2;"""))
r("bo-span", "B01 B04", (BO, """    for (size_t i = 0; i < size; ++i)
    {
        *this << span[i];
    }""", """    for (auto it = span.begin(), last = span.begin() + size; it != last; ++it)
    {
        *this << *it;
    }"""))
r("bo-span2", "B01 B04", (BO, """    const size_t availableSize = (dataBuf.end() - pos) / 2;
    auto size = span.size() < availableSize ? span.size() : availableSize;
    for (size_t i = 0; i < size; ++i)
    {
        *this << span[i];
    }""", """    for (const auto byte : span)
    {
        if (dataBuf.end() - pos < 2)
        {
            break;
        }
        *this << byte;
    }"""))
r("bo-view", "B01 B03", (BO, """    std::memcpy(pos, str.data(), effectiveSize);
    pos += effectiveSize;""", """    for (size_t i = 0; i < effectiveSize; ++i)
    {
        addChar(str[i]);
    }"""))
r("bo-float", "B01 B05", (BO, """        while (precision > 0 && pos != last)
        {
            f *= 10;
            n = int(f);
            *(pos++) = char('0' + n);
            f -= float(n);
            --precision;
        }""", """        for (unsigned int i = 0; i < precision && pos != last; ++i, ++pos)
        {
            const float scaled = f * 10;
            const int digit = int(scaled);
            *pos = char('0' + digit);
            f = scaled - float(digit);
        }"""))
r("bo-float2", "B01 B05", (BO, """    if (!(std::abs(val) < 2147483648.0f))
    {
        // NaN or the integer part can't be represented
        return first;
    }
    int n = int(val);""", """    const bool representable = val > -2147483648.0f && val < 2147483648.0f;
    if (!representable)
    {
        return first;
    }
    int n = static_cast<int>(val);"""))
r("bo-members", "B01 B06", ("BufferedOut.h", "size() const { return pos - dataBuf.begin(); }", "size() const { return capacity() - (dataBuf.end() - pos); }"),
  ("BufferedOut.h", """        if (pos != dataBuf.end())
        {
            *(pos++) = c;
        }""", """        if (pos == dataBuf.end())
        {
            return;
        }
        *pos = c;
        ++pos;"""))
MV = "MemoryView.h"
r("mv-min", "M01", (MV, """        if (count == npos)
            return MemoryView<T>(begin_ + offset, size_ - offset);
        return MemoryView<T>(begin_ + offset, std::min(size_ - offset, count));""", """        const size_type available = size_ - offset;
        return { begin_ + offset, count < available ? count : available };"""))
r("mv-last", "M01", (MV, """        if (count >= size_)
            return *this;
        return MemoryView<T>(begin_ + size_ - count, count);""", """        const size_type n = count < size_ ? count : size_;
        return MemoryView<T>(end() - n, n);"""))
ED = "EndianConversion.h"
r("en-rotate", "E01", (ED, """    auto in = *bytes;
    in = ((in & 0xff000000) >> 24) | ((in & 0x00FF0000) >> 8) | ((in & 0x0000FF00) << 8) | ((in & 0xFF) << 24);
    *bytes = (in >> 16) | (in << 16);""", """    const uint32_t in = *bytes;
    *bytes = ((in & 0xFF00FF00u) >> 8) | ((in & 0x00FF00FFu) << 8);"""),
  (ED, "return ((in & 0xFF00) >> 8) | ((in & 0x00FF) << 8);", "return static_cast<uint16_t>((in >> 8) | (in << 8));"))
PS = "PersistentStorage.h"
r("ps-eq", "K01 K02", (PS, """    if (lhs.size() < rhs.size())
    {
        return false;
    }
    auto effectiveLength = rhs.size();
    if (std::string_view(std::begin(lhs), effectiveLength) != rhs)
    {
        return false;
    }
    for (auto pos = effectiveLength; pos < lhs.size(); ++pos)
    {
        if (lhs[pos] != '\\0')
        {
            return false;
        }
    }

    return true;""", """    if (rhs.size() > N)
    {
        return false;
    }
    for (size_t pos = 0; pos < N; ++pos)
    {
        const char expected = pos < rhs.size() ? rhs[pos] : '\\0';
        if (lhs[pos] != expected)
        {
            return false;
        }
    }
    return true;"""))
r("ps-getidx", "K01 K03 K04", (PS, """        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)
        {
            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);
            if (node.idx == idx && node.size == sizeof(Node<T>))
            {
                return pos;
            }
            pos += node.size;
        }
        return wrongPos;""", """        std::size_t pos = 0;
        while (pos + sizeof(NodeDescriptor) <= free_head_)
        {
            const NodeDescriptor &node = getNodeDescriptor(pos);
            if (node.size == sizeof(Node<T>) && node.idx == idx)
            {
                return pos;
            }
            pos += node.size;
        }
        return wrongPos;"""))
r("ps-set", "K01 K02", (PS, """        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += recordSize;""", """        std::memcpy(&node.data, &object, sizeof(T));
        node.idx.fill('\\0');
        idx.copy(node.idx.data(), node.idx.size());
        node.size = recordSize;
        free_head_ = free_head_ + static_cast<std::uint32_t>(recordSize);"""))
r("ps-helper", "K01 K02", (PS, """        if (const auto pos = getIdx<T>(idx); pos != wrongPos)
        {
            if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
            {
                return node.data;
            }
        }
        return std::nullopt;""", """        const auto pos = getIdx<T>(idx);
        if (pos == wrongPos)
        {
            return std::nullopt;
        }
        return getNode<T>(pos).data;"""))
r("ps-open", "K03 K04", ("PersistentStorage.cpp", """        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
        {
            free_head_ += getNodeDescriptor(free_head_).size;
        }""", """        std::uint32_t end = 0;
        for (;;)
        {
            if (end + sizeof(NodeDescriptor) > buffer_.size())
            {
                break;
            }
            const std::size_t size = getNodeDescriptor(end).size;
            if (size < sizeof(NodeDescriptor) || end + size > buffer_.size())
            {
                break;
            }
            end += size;
        }
        free_head_ = end;"""))
FB = "graphics/SimpleFrameBuffer.h"
r("fb-clear", "G02", (FB, """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }""", """        for (int y = 0; y < height; ++y)
        {
            for (int x = 0; x < effectiveWidth; ++x)
            {
                drawPixel(x, y, color);
            }
        }"""))
r("fb-offset", "G01 G02", (FB, "        auto pixelOffset = (posY * effectiveWidth + posX) * bitsPerPixel / 8;", """        constexpr int rowBytes = effectiveWidth * bitsPerPixel / 8;
        const auto pixelOffset = posY * rowBytes + posX * bitsPerPixel / 8;"""),
  (FB, """            const auto mask = 0xC0 >> (posX % 4) * 2;
            buffer[pixelOffset] &= ~mask;
            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);""", """            const int shift = 6 - (posX & 3) * 2;
            auto &cell = buffer[pixelOffset];
            cell = (cell & ~(3u << shift)) | ((color & 3u) << shift);"""))
CV = "graphics/Canvas.cpp"
r("cv-hline", "C01 C03 C04", (CV, """    for (int i = 0; i < line_width; ++i, ++startPos.x)
    {
        setIfVisible(startPos);
    }""", """    for (const int endX = startPos.x + line_width; startPos.x < endX; ++startPos.x)
    {
        setIfVisible(startPos);
    }"""))
r("cv-vline", "C01 C03", (CV, """    for (int i = 0; i < line_height; ++i, ++startPos.y)
    {
        setIfVisible(startPos);
    }""", """    int rest = line_height;
    while (rest > 0)
    {
        setIfVisible(startPos);
        ++startPos.y;
        --rest;
    }"""))
r("cv-fill", "C01 C03", (CV, """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }""", """    for (int y = topLeft.y; y <= bottomRight.y; ++y)
    {
        drawHorizontalLine({ topLeft.x, y }, bottomRight.x - topLeft.x + 1);
    }"""))
r("cv-rect", "C01 C03", (CV, """    drawHorizontalLine(rect.topLeft, rect.size.width);
    drawHorizontalLine(rect.bottomLeft(), rect.size.width);
    drawVerticalLine(rect.topLeft, rect.size.height);
    drawVerticalLine(rect.topRight(), rect.size.height);""", """    const auto [width, height] = rect.size;
    drawVerticalLine(rect.topRight(), height);
    drawVerticalLine(rect.topLeft, height);
    drawHorizontalLine(rect.bottomLeft(), width);
    drawHorizontalLine(rect.topLeft, width);"""))
r("cv-circle", "C01 C04", (CV, """    do
    {
        setIfVisible(center + Size { -xPos, yPos });
        setIfVisible(center + Size { xPos, yPos });
        setIfVisible(center + Size { xPos, -yPos });
        setIfVisible(center + Size { -xPos, -yPos });
""", """    const auto drawMirrored = [this, center](int dx, int dy)
    {
        setIfVisible(center + Size { dx, dy });
        setIfVisible(center + Size { -dx, dy });
        setIfVisible(center + Size { dx, -dy });
        setIfVisible(center + Size { -dx, -dy });
    };
    do
    {
        drawMirrored(xPos, yPos);
"""))
r("cv-circle2", "C01 C04", (CV, """        int e2 = err;
        if (e2 <= yPos)
        {
            err += ++yPos * 2 + 1;
            if (-xPos == yPos && e2 <= xPos)
            {
                e2 = 0;
            }
        }
        if (e2 > xPos)
        {
            err += ++xPos * 2 + 1;
        }""", """        int previousError = err;
        if (previousError <= yPos)
        {
            ++yPos;
            err += 2 * yPos + 1;
            if (yPos == -xPos && previousError <= xPos)
            {
                previousError = 0;
            }
        }
        if (previousError > xPos)
        {
            ++xPos;
            err += 2 * xPos + 1;
        }"""))
r("cv-line", "C01 C03", (CV, """    while (longCoord <= longMax)
    {
        setIfVisible(start);
        err -= shortDiff;
        if (err < 0)
        {
            shortCoord += sign;
            err += longDiff;
        }
        ++longCoord;
    }""", """    for (; longCoord <= longMax; ++longCoord)
    {
        setIfVisible(start);
        if (err < shortDiff)
        {
            shortCoord += sign;
            err += longDiff;
        }
        err -= shortDiff;
    }"""))
r("cv-line2", "C01 C03", (CV, """    while (longCoord <= longMax)
    {
        setIfVisible(start);
        err -= shortDiff;
        if (err < 0)
        {
            shortCoord += sign;
            err += longDiff;
        }
        ++longCoord;
    }""", """    int along = longCoord;
    int across = shortCoord;
    const int last = longMax;
    do
    {
        setIfVisible(moveY ? Point { across, along } : Point { along, across });
        err -= shortDiff;
        if (err < 0)
        {
            across += sign;
            err += longDiff;
        }
    } while (++along <= last);"""))
r("cv-char", "C01 C05", (CV, """            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }""", """            const int bit = i + j * glyph.effectiveSize.width;
            if (ptr[bit / 8] & (0x80 >> (bit % 8)))
            {
                setIfVisible(matrix * (pos + Size { i, j }) + shifts);
            }"""))
r("cv-char2", "C01 C05", (CV, """    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }
        }
    }""", """    unsigned mask = 0x80;
    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if (*ptr & mask)
            {
                setIfVisible(matrix * (pos + Size { i, j }) + shifts);
            }
            mask >>= 1;
            if (mask == 0)
            {
                mask = 0x80;
                ++ptr;
            }
        }
    }"""))
r("cv-trans", "C02 C03 C05", (CV, """    //return getTransformMatrix()*pos + getShifts();
    switch (rotate)
    {
        case Rotation::Rotation90:
            return { size.width - 1 - pos.y, pos.x };
        case Rotation::Rotation180:
            return { size.width - 1 - pos.x, size.height - 1 - pos.y };
        case Rotation::Rotation270:;
            return { pos.y, size.height - 1 - pos.x };
        default:
            return { pos.x, pos.y };
    }""", """    return getTransformMatrix() * pos + getShifts();"""))
EF = "graphics/EmbeddedFont.cpp"
r("ef-lookup", "F01", (EF, """    auto pos = code - fontDescriptor.first;
    if (code > '~')
    {
        pos -= (0xA0 - '~' - 1);
    }

    if (pos >= fontDescriptor.glyph.size())
    {
        return getBitmap(fontDescriptor.first);
    }""", """    const size_t skipped = code > '~' ? 0xA0 - '~' - 1 : 0;
    size_t pos = code - fontDescriptor.first - skipped;
    if (!(pos < fontDescriptor.glyph.size()))
    {
        pos = 0;
    }"""))
r("ef-bounds", "F02", (EF, "        for (std::size_t i = 0; i < view.size(); ++i)\n        {\n            const auto& bitmap = getBitmap(view[i]);", "        std::size_t i = 0;\n        for (auto it = view.begin(); it != view.end(); ++it, ++i)\n        {\n            const auto bitmap = getBitmap(*it);"))
BS = "gfx-font-converter/BitStream.h"
r("bs", "T01", (BS, """            buffer |= byte >> bitCount;
            stream << buffer;
            buffer = byte << (8 - bitCount);""", """            const unsigned both = (unsigned(buffer) << 8) | (unsigned(byte) << (8 - bitCount));
            stream << static_cast<uint8_t>(both >> 8);
            buffer = static_cast<uint8_t>(both);"""),
  (BS, """        if (bitCount != 0)
        {
            stream << buffer;
            buffer = 0;
            bitCount = 0;
        }
    }
private""", """        if (bitCount == 0)
        {
            return;
        }
        stream << buffer;
        bitCount = 0;
        buffer = 0;
    }
private"""))
EC = "gfx-font-converter/EncodingConverter.cpp"
r("ec", "T02", (EC, """        if (errno == EINVAL)
        {
            inSize = (inSize + 1) % sizeof(buf);
        }
        else
        {
            inSize = 0;
        }
        return {};
    }
    inSize = 0;
    return outBuf.result;""", """        const bool incomplete = errno == EINVAL && inSize + 1 < sizeof(buf);
        inSize = incomplete ? inSize + 1 : 0;
        return 0;
    }
    inSize = 0;
    return outBuf.result;"""))
r("ard-spi", "H01", ("arduino/SpiBus.cpp", """        switch (size)
        {
            case 3:
                spi.transfer(*in++);
                [[fallthrough]];
            case 2:
                 spi.transfer(*in++);
                [[fallthrough]];
            case 1:
                 spi.transfer(*in);
                [[fallthrough]];
            case 0:
                return;
            default:
            {
""", """        if (size < 4)
        {
            for (uint16_t i = 0; i < size; ++i)
            {
                spi.transfer(in[i]);
            }
            return;
        }
        {
            {
"""))
ES = "esp32-esp-idf/SpiBus.cpp"
r("esp-spi", "H01", (ES, """        if (sendBytes != nullptr)
        {
            transaction.tx_buffer = sendBytes;
            transaction.length = 8 * effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            transaction.rx_buffer = receiveBytes;
            transaction.rxlength = 8 * effectiveLength;
        }
        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)
        {
            return false;
        }
        length -= effectiveLength;
        if (sendBytes != nullptr)
        {
            sendBytes += effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            receiveBytes += effectiveLength;
        }
""", """        const auto bits = 8 * effectiveLength;
        if (sendBytes != nullptr)
        {
            transaction.length = bits;
            transaction.tx_buffer = sendBytes;
            sendBytes += effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            transaction.rxlength = bits;
            transaction.rx_buffer = receiveBytes;
            receiveBytes += effectiveLength;
        }
        const auto status = spi_device_polling_transmit(spiDevice, &transaction);
        if (status != ESP_OK)
        {
            return false;
        }
        length -= effectiveLength;
"""))
r("esp-spi2", "H01", (ES, "    while (length > 0)\n    {\n        const auto effectiveLength = std::min(length , maxTransferSize);", "    for (; length != 0;)\n    {\n        const uint32_t effectiveLength = length < maxTransferSize ? length : maxTransferSize;"))
EU = "esp32-esp-idf/PacketUart.cpp"
r("esp-until", "H02", (EU, """    while ( currentPos < bufferSize
            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
    {
        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
        {
            if (buffer[currentPos++] == endByte)
            {
                break;
            }
        }
    }
""", """    while (currentPos < bufferSize)
    {
        if (timeoutMilliseconds != 0)
        {
            elapsed = embedded::getMillisecondTicks() - startTime;
            if (elapsed >= timeoutMilliseconds)
            {
                break;
            }
        }
        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) != 1)
        {
            continue;
        }
        const uint8_t received = buffer[currentPos];
        ++currentPos;
        if (received == endByte)
        {
            break;
        }
    }
"""))
r("ard-until", "H02", ("arduino/PacketUart.cpp", """    while (millis() - startTime < timeout && currentPos < bufferSize)
    {
        int nextByte = uartDevice.read();
        if (nextByte >= 0)
        {
            buffer[currentPos++] = (uint8_t)nextByte;
        }
        else
        {
            delay(1);
        }
    }""", """    while (currentPos != bufferSize && millis() - startTime < timeout)
    {
        const int nextByte = uartDevice.read();
        if (nextByte < 0)
        {
            delay(1);
            continue;
        }
        buffer[currentPos] = static_cast<uint8_t>(nextByte);
        ++currentPos;
    }"""))
r("esp-delay", "H05", ("esp32-esp-idf/Delays.cpp", """        auto current = static_cast<uint64_t>(esp_timer_get_time());
        uint64_t expected = current + microseconds;
        if (expected < current)
        {
            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);
        }
        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);""", """        const auto start = static_cast<uint64_t>(esp_timer_get_time());
        while (static_cast<uint64_t>(esp_timer_get_time()) - start < microseconds)
        {
        }"""))
r("light", "H05", ("esp32-esp-idf/SleepFunctions.h", """    uint32_t elapsed = 0;

    while (elapsed < milliseconds)
    {
        const uint32_t rest = milliseconds - elapsed;
""", """    for (uint32_t elapsed = 0; elapsed < milliseconds;)
    {
        const auto rest = milliseconds - elapsed;
"""))
r("adc", "H04", ("esp32-esp-idf/AnalogPin.cpp", """    if (adc_oneshot_new_unit(&cfg, &handle) == ESP_OK)
    {
        adc_oneshot_chan_cfg_t chanCfg =
        {
            .atten = ADC_ATTEN_DB_12,
            .bitwidth = ADC_BITWIDTH_12,
        };
        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)
        {
            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
            {
                result = -1;
            }
        }
        adc_oneshot_del_unit(handle);
    }
    return result;""", """    if (adc_oneshot_new_unit(&cfg, &handle) != ESP_OK)
    {
        return -1;
    }
    adc_oneshot_chan_cfg_t chanCfg =
    {
        .atten = ADC_ATTEN_DB_12,
        .bitwidth = ADC_BITWIDTH_12,
    };
    const bool ok = adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK
                    && adc_oneshot_read(handle, channel, &result) == ESP_OK;
    adc_oneshot_del_unit(handle);
    return ok ? result : -1;"""))
r("i2c", "H03", ("arduino/I2CDevice.cpp", """    for (uint16_t i = 0; i < count; ++i) {
        data[i] = impl.i2c.read();
    }""", """    for (uint8_t* const end = data + count; data != end; ++data)
    {
        *data = static_cast<uint8_t>(impl.i2c.read());
    }"""))
r("serial", "S01", ("SerialOut.h", """        if (bufferedOut.size() == bufferedOut.capacity())
        {
            flush();
        }
        bufferedOut.addChar('\\n');""", """        const bool full = bufferedOut.size() >= bufferedOut.capacity();
        if (full)
        {
            flush();
        }
        bufferedOut << '\\n';"""))
MN = "gfx-font-converter/main.cpp"
r("tab-sep", "X02", (MN, """        if (bytesWritten != 0)
        {
            bufferedOut << ',';
            if (bytesInLine == bytesWritten)
            {
                bufferedOut << '\\n';
                flush();
                bytesWritten = 0;
            }
            else
            {
                bufferedOut << ' ';
            }
        }
        if (bytesWritten == 0)
        {
            for (int i = 0; i < indent; ++i)
            {
                bufferedOut << ' ';
            }
        }
        bufferedOut << "0x" << byte;
        ++bytesWritten;
        ++totalBytesWritten;
        return *this;
    }
""", """        const bool newLine = totalBytesWritten % bytesInLine == 0;
        if (totalBytesWritten > 0)
        {
            bufferedOut << (newLine ? ",\\n" : ", ");
        }
        if (newLine)
        {
            flush();
            writeIndent();
        }
        bufferedOut << "0x" << byte;
        ++totalBytesWritten;
        return *this;
    }
"""), (MN, """    const int bytesInLine;
    const int indent;
    int bytesWritten = 0;
""", """    void writeIndent()
    {
        auto &bufferedOut = getBufferedOut();
        int i = indent;
        while (i-- > 0)
        {
            bufferedOut << ' ';
        }
    }

    const int bytesInLine;
    const int indent;
"""))
r("tab-next", "X02", (MN, """        if (currentGlyph < lastChar)
        {
            if (currentGlyph == '~')
            {
                currentGlyph = 0xA0;
            }
            else
            {
                ++currentGlyph;
            }
        }
        flush();
        return *this;
    }

private:
""", """        advance();
        flush();
        return *this;
    }

private:
    void advance()
    {
        if (currentGlyph >= lastChar)
        {
            return;
        }
        currentGlyph = (currentGlyph == '~') ? 0xA0 : currentGlyph + 1;
    }

"""), (MN, """        if (currentGlyph < lastChar)
        {
            bufferedOut << ",   // 0x" << (uint8_t)currentGlyph;
        }
        else
        {
            bufferedOut << " }; // 0x" << (uint8_t)currentGlyph;
        }
""", """        const bool isLast = currentGlyph == lastChar;
        bufferedOut << (isLast ? " };" : ",  ");
        bufferedOut << " // 0x" << static_cast<uint8_t>(currentGlyph);
"""))
r("tab-flush", "X02", (MN, """        const auto view = bufferedOut.asStringView();
        if (!view.empty())
        {
            outputStream.write(view.data(), view.end() - view.begin());
            bufferedOut.clear();
        }
""", """        if (const auto view = bufferedOut.asStringView(); view.size() > 0)
        {
            outputStream << view;
            bufferedOut.clear();
        }
"""))
r("ef-range", "F02", ("graphics/EmbeddedFont.cpp", """        for (std::size_t i = 0; i < view.size(); ++i)
        {
            const auto& bitmap = getBitmap(view[i]);""", """        bool first = true;
        for (const char symbol : view)
        {
            const auto bitmap = getBitmap(symbol);"""), ("graphics/EmbeddedFont.cpp", "            minLeft = (i == 0) ? left : std::min(minLeft, left);\n            maxRight = (i == 0) ? right : std::max(maxRight, right);\n",
  "            minLeft = first ? left : std::min(minLeft, left);\n            maxRight = first ? right : std::max(maxRight, right);\n            first = false;\n"))
r("ef-next", "F01", ("graphics/EmbeddedFont.cpp", """    const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
    ++pos;
    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                           fontDescriptor.bitmap.end() :
                           fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
    return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },""",
"""    const std::size_t next = pos + 1;
    std::size_t endOffset = fontDescriptor.bitmap.size();
    if (next < fontDescriptor.glyph.size())
    {
        endOffset = fontDescriptor.glyph[next].bitmapOffset;
    }
    return EmbeddedFont::CharacterBitmap { .bitmap { fontDescriptor.bitmap.begin() + glyph.bitmapOffset, static_cast<uint16_t>(endOffset - glyph.bitmapOffset) },"""))
r("ps-early", "K01 K02", (PS, """        if (idx.size() > sizeof(NodeDescriptor::idx))
        {
            // the key can't be stored without truncation
            return false;
        }
""", ""), (PS, """        if (const auto pos = getIdx<T>(idx); pos != wrongPos)
        {
            auto &node = getNode<T>(pos);""", """        if (idx.size() > sizeof(NodeDescriptor::idx))
        {
            // the key can't be stored without truncation
            return false;
        }
        if (const auto pos = getIdx<T>(idx); pos != wrongPos)
        {
            auto &node = getNode<T>(pos);"""))
r("ps-write", "K01 K02 K03", (PS, """        auto &node = getNode<T>(free_head_);
        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)
        {
            node.idx[pos] = '\\0';
        }
        node.size = recordSize;
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += recordSize;
        return true;
    }
""", """        appendNode(idx, object);
        return true;
    }
"""), (PS, """private:
    BytesView buffer_;""", """private:
    template<typename T>
    void appendNode(std::string_view idx, const T &object)
    {
        auto &node = getNode<T>(free_head_);
        node.size = sizeof(Node<T>);
        std::memset(node.idx.data(), 0, node.idx.size());
        std::memcpy(node.idx.data(), idx.data(), idx.size());
        std::memcpy(&node.data, &object, sizeof(T));
        free_head_ += sizeof(Node<T>);
    }

    BytesView buffer_;"""))
r("ps-remaining", "K02 K04", (PS, "        if (free_head_ + recordSize > buffer_.size())", "        if (buffer_.size() - free_head_ < recordSize)"))
r("bo-pad3", "B01 B02", (BO, """        auto paddingSize = integerWidth - realSize;
        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }
    }""", """        std::memset(pos, fillChar, integerWidth - realSize);
    }"""))
r("bo-appendlen", "B01 B03", (BO, """    while (*str && dst != end)
    {
        *(dst++) = *(str++);
    }
    return dst;""", """    const std::size_t length = std::strlen(str);
    const std::size_t room = end - dst;
    const std::size_t count = length < room ? length : room;
    std::memcpy(dst, str, count);
    return dst + count;"""))
r("bo-float3", "B01 B05", (BO, """        while (precision > 0 && pos != last)
        {
            f *= 10;
            n = int(f);
            *(pos++) = char('0' + n);
            f -= float(n);
            --precision;
        }""", """        for (unsigned int i = 0; i < precision && pos != last; ++i)
        {
            f *= 10;
            const int digit = int(f);
            *(pos++) = char('0' + digit);
            f -= float(digit);
        }"""))
r("mv-sub", "M01", ("MemoryView.h", """        if (offset >= size_)
            return {};
        if (count == npos)
            return MemoryView<T>(begin_ + offset, size_ - offset);
        return MemoryView<T>(begin_ + offset, std::min(size_ - offset, count));""", """        return offset < size_ ? MemoryView<T>(begin_ + offset, std::min<size_type>(count, size_ - offset)) : MemoryView<T>();"""))
r("cv-char3", "C01 C05", (CV, """            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }
""", """            const int bit = i + j * glyph.effectiveSize.width;
            if (ptr[bit / 8] & (0x80 >> (bit & 7)))
            {
                setIfVisible(matrix * (pos + Size { i, j }) + shifts);
            }
"""))
r("cv-char4", "C01 C05", (CV, """    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if ((*ptr) & (0x80 >> ((i + j * glyph.effectiveSize.width) % 8)))
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            if ((i + j * glyph.effectiveSize.width) % 8 == 7)
            {
                ++ptr;
            }
""", """    uint8_t mask = 0x80;
    for (int j = 0; j < glyph.effectiveSize.height; ++j)
    {
        for (int i = 0; i < glyph.effectiveSize.width; ++i)
        {
            if (*ptr & mask)
            {
                const auto absoluteCoords = matrix * (pos + Size { i, j }) + shifts;
                setIfVisible(absoluteCoords);
            }
            mask >>= 1;
            if (mask == 0)
            {
                mask = 0x80;
                ++ptr;
            }
"""))
r("cv-frect2", "C01 C03", (CV, """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }
""", """    for (int y = topLeft.y; y <= bottomRight.y; ++y)
    {
        for (int x = topLeft.x; x <= bottomRight.x; ++x)
        {
            setIfVisible({ x, y });
        }
    }
"""))
r("cv-hclip", "C01 C03 C04", (CV, """    for (int i = 0; i < line_width; ++i, ++startPos.x)
    {
        setIfVisible(startPos);
    }""", """    int remaining = line_width;
    while (remaining > 0)
    {
        setIfVisible(startPos);
        ++startPos.x;
        --remaining;
    }"""))
r("cv-line3", "C01 C03", (CV, """    while (longCoord <= longMax)
    {
        setIfVisible(start);
        err -= shortDiff;
        if (err < 0)
        {
            shortCoord += sign;
            err += longDiff;
        }
        ++longCoord;
    }
""", """    for (int i = 0; i <= longDiff; ++i, ++longCoord)
    {
        setIfVisible(start);
        err -= shortDiff;
        if (err >= 0)
        {
            continue;
        }
        err += longDiff;
        shortCoord += sign;
    }
"""))
r("esp-urecv", "H02", ("esp32-esp-idf/SimpleUartDevice.cpp", """    const auto delayTicks = timeoutMilliseconds / portTICK_PERIOD_MS;
    return uart_read_bytes(uartNum, data, size, delayTicks);""", """    return uart_read_bytes(uartNum, data, static_cast<uint32_t>(size), timeoutMilliseconds / portTICK_PERIOD_MS);"""))



BSH = "gfx-font-converter/BitStream.h"
GEO = "graphics/BaseGeometry.h"
r("fb-flat", "G02", (FB, """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }""", """        for (int i = 0; i < effectiveWidth * height; ++i)
        {
            drawPixel(i % effectiveWidth, i / effectiveWidth, color);
        }"""))
r("fb-fill", "G02", (FB, """        for (int x = 0; x < effectiveWidth; ++x)
        {
            for (int y = 0; y < height; ++y)
            {
                drawPixel(x, y, color);
            }
        }""", """        if constexpr (colorDepth == 1)
        {
            buffer.fill(color != 0 ? 0xFF : 0);
        }
        else if constexpr (colorDepth == 8)
        {
            std::fill(buffer.begin(), buffer.end(), static_cast<uint8_t>(color));
        }
        else
        {
            for (int y = 0; y < height; ++y)
            {
                for (int x = 0; x < effectiveWidth; ++x)
                {
                    drawPixel(x, y, color);
                }
            }
        }"""), (FB, '#include "FrameBufferBase.h"', '#include "FrameBufferBase.h"\n#include <algorithm>'))
r("fb-words", "G01 G02", (FB, """            buffer[pixelOffset] = color >> 24;
            buffer[pixelOffset + 1] = (color >> 16) & 0xFF;
            buffer[pixelOffset + 2] = (color >> 8) & 0xFF;
            buffer[pixelOffset + 3] = color & 0xFF;""", """            for (int i = 0; i < 4; ++i)
            {
                buffer[pixelOffset + i] = static_cast<uint8_t>(color >> (24 - 8 * i));
            }"""))
r("bs-early", "T01", (BSH, """        if (bitCount != 0)
        {
            stream << buffer;
            buffer = 0;
            bitCount = 0;
        }
    }
private""", """        if (bitCount == 0)
        {
            return;
        }
        emit();
    }
private:
    void emit()
    {
        stream << buffer;
        bitCount = 0;
        buffer = 0;
    }
private"""), (BSH, """        if (++bitCount == 8)
        {
            stream << buffer;
            buffer = 0;
            bitCount = 0;
        }""", """        ++bitCount;
        if (bitCount > 7)
        {
            emit();
        }"""))
r("bs-repr", "T01", (BSH, """        if (bit)
        {
            buffer |= 1 << (7 - bitCount);
        }
        if (++bitCount == 8)""", """        buffer = static_cast<uint8_t>(buffer << 1 | (bit ? 1 : 0));
        if (++bitCount == 8)"""), (BSH, """            buffer |= byte >> bitCount;
            stream << buffer;
            buffer = byte << (8 - bitCount);""", """            stream << static_cast<uint8_t>(buffer << (8 - bitCount) | byte >> bitCount);
            buffer = byte & ((1 << bitCount) - 1);"""), (BSH, """        if (bitCount != 0)
        {
            stream << buffer;""", """        if (bitCount != 0)
        {
            stream << static_cast<uint8_t>(buffer << (8 - bitCount));"""))
r("ef-early", "F02", (EF, """    Rect<int> result{};
    if (view.length() > 0)
    {""", """    Rect<int> result{};
    if (view.empty())
    {
        return result;
    }
    {"""), (EF, """            minLeft = (i == 0) ? left : std::min(minLeft, left);
            maxRight = (i == 0) ? right : std::max(maxRight, right);""", """            if (i == 0 || left < minLeft)
            {
                minLeft = left;
            }
            if (i == 0 || maxRight < right)
            {
                maxRight = right;
            }"""))
r("ef-index", "F01", (EF, """    const auto code = static_cast<uint8_t>(symbol);
    if (code < fontDescriptor.first || code > fontDescriptor.last || (code > '~' && code < 0xA0))
    {
        return getBitmap(fontDescriptor.first);
    }
    auto pos = code - fontDescriptor.first;
    if (code > '~')
    {
        pos -= (0xA0 - '~' - 1);
    }

    if (pos >= fontDescriptor.glyph.size())
    {
        return getBitmap(fontDescriptor.first);
    }""", """    const auto code = static_cast<uint8_t>(symbol);
    const bool inGap = '~' < code && code < 0xA0;
    const bool inRange = fontDescriptor.first <= code && code <= fontDescriptor.last;
    auto pos = code - fontDescriptor.first;
    if (code >= 0xA0)
    {
        pos -= 0x21;
    }
    if (!inRange || inGap || pos >= fontDescriptor.glyph.size())
    {
        return getBitmap(fontDescriptor.first);
    }"""))
r("cv-visible", "C01 C03", ("graphics/Canvas.h", """        if (point.x >= 0 && point.x < size.width && point.y >= 0 && point.y < size.height)
        {
            frameBuffer.drawPixel(point.x, point.y);
        }
    }""", """        if (!isVisible(point))
        {
            return;
        }
        frameBuffer.drawPixel(point.x, point.y);
    }
    bool isVisible(const Point &point) const
    {
        return static_cast<unsigned>(point.x) < static_cast<unsigned>(size.width)
               && static_cast<unsigned>(point.y) < static_cast<unsigned>(size.height);
    }"""))
r("cv-rect3", "C03", (CV, """    drawHorizontalLine(rect.topLeft, rect.size.width);
    drawHorizontalLine(rect.bottomLeft(), rect.size.width);
    drawVerticalLine(rect.topLeft, rect.size.height);
    drawVerticalLine(rect.topRight(), rect.size.height);""", """    const auto corner = rect.bottomRight();
    for (int x = rect.topLeft.x; x <= corner.x; ++x)
    {
        setIfVisible({ x, rect.topLeft.y });
        setIfVisible({ x, corner.y });
    }
    for (int y = rect.topLeft.y; y <= corner.y; ++y)
    {
        setIfVisible({ rect.topLeft.x, y });
        setIfVisible({ corner.x, y });
    }"""))
r("cv-fill2", "C03", (CV, """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }""", """    for (int y = topLeft.y; y <= bottomRight.y; ++y)
    {
        for (int x = topLeft.x; x <= bottomRight.x; ++x)
        {
            setIfVisible({ x, y });
        }
    }"""))
r("cv-fill3", "C03", (CV, """    const auto width = bottomRight.x - topLeft.x + 1;
    while (topLeft.y <= bottomRight.y)
    {
        drawHorizontalLine(topLeft, width);
        ++topLeft.y;
    }""", """    const auto height = bottomRight.y - topLeft.y + 1;
    while (topLeft.x <= bottomRight.x)
    {
        drawVerticalLine(topLeft, height);
        ++topLeft.x;
    }"""))
r("bo-fill", "B01 B02", (BO, """        auto paddingSize = integerWidth - realSize;
        auto paddingPos = pos;
        while (paddingSize-- > 0)
        {
            *(paddingPos++) = fillChar;
        }""", """        std::fill_n(pos, integerWidth - realSize, fillChar);"""), (BO, "#include <charconv>", "#include <algorithm>\n#include <charconv>"))
r("bo-append2", "B01 B03", (BO, """    while (*str && dst != end)
    {
        *(dst++) = *(str++);
    }
    return dst;""", """    const std::size_t room = end - dst;
    const std::size_t length = std::strlen(str);
    const std::size_t count = length < room ? length : room;
    std::memcpy(dst, str, count);
    return dst + count;"""))
r("geo", "A01", (GEO, """        x += size.width;
        y += size.height;
        return *this;""", """        return *this = *this + size;"""), (GEO, "return x != other.x || y != other.y;", "return !(*this == other);"),
  (GEO, "return topLeft + (size - Size<T> { 1, 1 });", "return { static_cast<T>(topLeft.x + size.width - 1), static_cast<T>(topLeft.y + size.height - 1) };"),
  (GEO, """    constexpr Point<T> operator*(Point<T> v)
    {
        return { static_cast<T>(data[0] * v.x + data[1] * v.y), static_cast<T>(data[2] * v.x + data[3] * v.y) };
    }""", """    constexpr Point<T> operator*(Point<T> v)
    {
        return { row(0, v), row(1, v) };
    }

    constexpr T row(int i, Point<T> v) const
    {
        return static_cast<T>(v.x * data[2 * i] + v.y * data[2 * i + 1]);
    }"""))
r("uart-open", "H06", ("esp32-esp-idf/SimpleUartDevice.cpp", """    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));
    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));
""", """    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));
    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));
"""))
r("adc2", "H04 H06", ("esp32-esp-idf/AnalogPin.cpp", """    if (adc_oneshot_new_unit(&cfg, &handle) == ESP_OK)
    {""", """    if (adc_oneshot_new_unit(&cfg, &handle) != ESP_OK)
    {
        return result;
    }
    {"""))

def one(id):
    """id or id:P1,P2"""
    id, _, only = id.partition(":")
    props, edits = R[id]
    d = "/tmp/rf_%s" % id
    subprocess.run("rm -rf %s; git clone -q /repo %s" % (d, d), shell=True, check=True)
    try:
        for f, a, b in edits:
            p = d + "/" + f
            s = open(p).read()
            if s.count(a) != 1:
                print(id, "does not apply", f, s.count(a)); return
            open(p, "w").write(s.replace(a, b))
        for p in only.split(",") if only else props:
            t = time.time()
            q = subprocess.run("IRV_REPO=%s %s/check %s" % (d, V, p), shell=True, capture_output=True, text=True, errors="replace")
            l = [x[:300] for x in q.stdout.split("\n") if x.startswith(("failed", "unit", "FAIL", "CANNOT"))][:4] if q.returncode else []
            print("%-12s %s %s %.0fs %s" % (id, p, {0: "quiet", 1: "ALARM"}.get(q.returncode, "NO ANSWER"), time.time() - t, " | ".join(l)), flush=True)
    finally:
        subprocess.run("rm -rf %s" % d, shell=True)


if __name__ == "__main__":
    for id in sys.argv[1:] or list(R):
        one(id)
