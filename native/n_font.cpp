// Native replay search for F01, F02: the real EmbeddedFont over fonts whose tables end exactly at their last byte.
#include "n_common.h"
#include <algorithm>
#include <array>
#include <memory>
#include <string_view>
#include "graphics/EmbeddedFont.cpp"
#include "graphics/EmbeddedFonts.cpp"
using namespace embedded::fonts;
struct Font
{
    std::unique_ptr<uint8_t[]> bits;
    std::unique_ptr<GlyphDescriptor[]> tab;
    FontDescriptor d;
};
static Font make()
{
    Font f;
    int first, last, n;
    switch (rnd(4))
    {
    case 0: first = 32, last = 126, n = 95; break;
    case 1: first = 32, last = 255, n = 224 - 33; break;
    case 2: first = 1 + rnd(0x7E), last = 0xA0 + rnd(0x60), n = last - first + 1 - 33; break;
    default: first = 1 + rnd(0x7E), last = first + rnd(0x7F - first), n = last - first + 1;
    }
    if (rnd(4) == 0) n = std::max(1, n - int(rnd(5)));
    std::vector<uint8_t> b;
    f.tab.reset(new GlyphDescriptor[n]);
    for (int i = 0; i < n; ++i)
    {
        int w = rnd(9), h = rnd(9);
        if (rnd(60) == 0) w = rnd(256), h = rnd(256);
        if (b.size() + (w * h + 7) / 8 > 60000) w = h = 0;
        f.tab[i].bitmapOffset = b.size();
        f.tab[i].size = { uint8_t(w), uint8_t(h) };
        f.tab[i].offset = { int8_t(int(rnd(9)) - 4), int8_t(int(rnd(20)) - 16) };
        f.tab[i].shift = rnd(3) ? w + 1 : rnd(256);
        if (rnd(20) == 0) f.tab[i].offset = { int8_t(rnd()), int8_t(rnd()) };
        for (int k = (w * h + 7) / 8; k; --k) b.push_back(rnd());
    }
    f.bits.reset(new uint8_t[b.size()]);
    std::copy(b.begin(), b.end(), f.bits.get());
    new (&f.d) FontDescriptor { { f.bits.get(), b.size() }, { f.tab.get(), size_t(n) }, uint8_t(first), uint8_t(last), 0 };
    return f;
}
static int entry(const FontDescriptor& d, uint8_t c)
{
    int n = d.glyph.size();
    if (c < d.first || c > d.last || (c >= 0x7F && c <= 0x9F)) return 0;
    int p = c <= 0x7E ? c - d.first : c - d.first - 33;
    return p < n ? p : 0;
}
static void one(const std::string& prop)
{
    Font f = make();
    EmbeddedFont e(f.d);
    int n = f.d.glyph.size();
    if (prop == "F01")
    {
        uint8_t c = rnd(3) ? rnd() : 0x70 + rnd(0x40);
        if (rnd(4) == 0) c = f.d.last - rnd(2);
        note("font of %d glyphs for codes %d..%d, looking up %d", n, f.d.first, f.d.last, c);
        auto g = e.getBitmap(char(c));
        auto& t = f.d.glyph[entry(f.d, c)];
        if (g.effectiveSize.width != t.size.width || g.effectiveSize.height != t.size.height || g.offset.width != t.offset.width ||
            g.offset.height != t.offset.height || g.width != t.shift)
            fail("not the glyph at entry %d", entry(f.d, c));
        if (g.bitmap.begin() != f.bits.get() + t.bitmapOffset) fail("bitmap does not start at the glyph's offset %d", t.bitmapOffset);
        if (g.bitmap.size() > size_t(f.d.bitmap.end() - g.bitmap.begin()) || g.bitmap.size() * 8 < size_t(t.size.width) * t.size.height)
            fail("bitmap of %zu bytes for a %dx%d glyph, %zd bytes are left", g.bitmap.size(), t.size.width, t.size.height, size_t(f.d.bitmap.end() - g.bitmap.begin()));
        return;
    }
    int len = rnd(8);
    std::unique_ptr<char[]> s(new char[len]);
    for (int i = 0; i < len; ++i) s[i] = char(rnd(3) ? f.d.first + rnd(n) : rnd());
    note("font of %d glyphs for codes %d..%d, text", n, f.d.first, f.d.last);
    int l = 1 << 30, r = -l, t = 0, b = r, pen = 0;
    for (int i = 0; i < len; ++i)
    {
        auto& g = f.d.glyph[entry(f.d, s[i])];
        note(" %d(%dx%d offset %d,%d advance %d)", uint8_t(s[i]), g.size.width, g.size.height, g.offset.width, g.offset.height, g.shift);
        l = std::min(l, pen + g.offset.width);
        r = std::max(r, pen + g.offset.width + g.size.width);
        t = std::min<int>(t, g.offset.height);
        b = std::max(b, g.offset.height + g.size.height);
        pen += g.shift;
    }
    auto q = e.getTextBounds(std::string_view(s.get(), len));
    int x = -l, y = -t, w = r - l, h = b - t;
    if (!len) x = q.topLeft.x, y = q.topLeft.y, w = h = 0;
    if (q.topLeft.x != x || q.topLeft.y != y || q.size.width != w || q.size.height != h)
        fail("bounds %dx%d at (%d, %d), expected %dx%d at (%d, %d)", q.size.width, q.size.height, q.topLeft.x, q.topLeft.y, w, h, x, y);
}
int main(int argc, char** argv) { return search(argc, argv, one); }
