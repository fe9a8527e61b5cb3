// Contract view of embedded::BufferedOut for its callers: every operation is declared only and
// stands for the contract proved of the real class (B01-B06).
#pragma once
#include "MemoryView.h"
#include <array>
#include <string_view>
namespace embedded
{
class BufferedOut
{
    long opaque[5];
public:
    explicit BufferedOut(MemoryView<char> dataBuf);
    struct precision { int p; };
    struct width { int w; };
    struct fill { char f; };
    BufferedOut &operator<<(const char* str);
    BufferedOut &operator<<(std::string_view str);
    BufferedOut &operator<<(int n);
    BufferedOut &operator<<(unsigned int n);
    BufferedOut &operator<<(long n);
    BufferedOut &operator<<(unsigned long n);
    BufferedOut &operator<<(long long n);
    BufferedOut &operator<<(unsigned long long n);
    BufferedOut &operator<<(float f);
    BufferedOut &operator<<(unsigned char b);
    BufferedOut &operator<<(ConstBytesView span);
    BufferedOut &operator<<(char c);
    BufferedOut &operator<<(precision p);
    BufferedOut &operator<<(width w);
    BufferedOut &operator<<(fill f);
    BytesView data();
    ConstBytesView data() const;
    std::string_view asStringView() const;
    size_t size() const;
    size_t capacity() const;
    explicit operator uint8_t*();
    explicit operator const uint8_t*() const;
    void clear();
    void addChar(char c);
};
}
