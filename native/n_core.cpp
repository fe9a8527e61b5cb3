// Executable oracle for MemoryView and EndianConversion.
#include "n_common.h"
#include "MemoryView.h"
#include "EndianConversion.h"
#include <algorithm>
#include <iterator>
using namespace embedded;
struct Odd { unsigned char x[6]; };
static uint64_t arg(uint64_t n) { return rnd(3) == 0 ? interesting() : rnd(3) == 0 ? n + rnd(3) - 1 : rnd(n + 4); }
#define REQ(c) do { if (!(c)) fail("%s", #c); } while (0)
template <class T> static void views(const char* ty)
{
    size_t n = rnd(4) == 0 ? rnd(3) : rnd(40);
    std::vector<T> m(n + 1);
    T* p = m.data();
    MemoryView<T> v(p, n);
    uint64_t o = arg(n), c = arg(n);
    note("%s n=%zu offset=%lu count=%lu", ty, n, o, c);
    auto s = v.subspan(o, c);
    size_t want = o >= n ? 0 : std::min<uint64_t>(n - o, c);
    REQ(s.size() == want && (!want || s.begin() == p + o));
    s = v.subspan(o);
    want = o >= n ? 0 : n - o;
    REQ(s.size() == want && (!want || s.begin() == p + o));
    s = v.first(c);
    want = std::min<uint64_t>(n, c);
    REQ(s.size() == want && (!want || s.begin() == p));
    s = v.last(c);
    REQ(s.size() == want && (!want || s.begin() == p + (n - want)));
    REQ(v.size() == n && v.begin() == p && v.end() == p + n && v.cbegin() == p && v.cend() == p + n && v.data() == p);
    REQ(v.size_bytes() == n * sizeof(T) && v.empty() == (n == 0));
    REQ(v.as_bytes().begin() == (const uint8_t*)p && v.as_bytes().size() == n * sizeof(T));
    REQ(MemoryView<T>(p, p + n).size() == n);
    MemoryView<const T> k = v;
    REQ(k.begin() == p && k.size() == n);
    if (n)
    {
        size_t i = rnd(n);
        REQ(&v[i] == p + i && &v.front() == p && &v.back() == p + n - 1 && &*v.rbegin() == p + n - 1 && v.rend().base() == p);
        REQ(&*v.crbegin() == p + n - 1 && v.crend().base() == p);
    }
    REQ(MemoryView<T>().size() == 0 && MemoryView<T>().empty());
    std::array<T, 7> a;
    T b[5];
    REQ(MemoryView<T>(a).size() == 7 && MemoryView<T>(a).begin() == a.data() && MemoryView<T>(b).size() == 5 && MemoryView<T>(b).begin() == b);
}
static void run(const std::string& prop)
{
    if (prop == "E01")
    {
        uint32_t x = interesting();
        uint16_t h = x;
        note("x=%08x", x);
        uint32_t r = __builtin_bswap32(x), g;
        REQ(changeEndianess(h) == (uint16_t)__builtin_bswap16(h));
        REQ(changeEndianess(x) == r);
        float f = changeEndianessToFloat(x);
        memcpy(&g, &f, 4);
        REQ(g == r);
        uint32_t* q = (uint32_t*)malloc(4);
        *q = x;
        changeEndianess16x2(q);
        REQ(*q == (((x & 0xFF00FF00u) >> 8) | ((x & 0x00FF00FFu) << 8)));
        free(q);
        return;
    }
    switch (rnd(4))
    {
    case 0: views<char>("char"); break;
    case 1: views<uint8_t>("byte"); break;
    case 2: views<uint32_t>("word"); break;
    default: views<Odd>("six bytes");
    }
    char b[9];
    size_t n = rnd(10);
    std::string_view sv = MemoryView<char>(b, n), cv = MemoryView<const char>(b, n);
    uint32_t w[9];
    REQ(sv.data() == b && sv.size() == n && cv.data() == b && cv.size() == n);
    auto wb = MemoryView<uint32_t>(w, n).as_writable_bytes();
    REQ(wb.begin() == (uint8_t*)w && wb.size() == 4 * n);
}
int main(int c, char** v) { return search(c, v, run); }
