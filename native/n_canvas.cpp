// Native replay search for C01..C05: the real Canvas over a recording frame buffer.
#include "n_common.h"
#include <cmath>
#include <algorithm>
#include <array>
#include <memory>
#include <string_view>
#include "graphics/Canvas.cpp"
#include "graphics/EmbeddedFont.h"
struct Rec : FrameBufferBase
{
    int w, h;
    std::vector<int> n;
    Rec(int w, int h) : w(w), h(h), n(w * h, 0) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return { nullptr, nullptr }; }
    embedded::ConstBytesView getImage() const override { return { nullptr, nullptr }; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int x, int y) override
    {
        if (x < 0 || y < 0 || x >= w || y >= h) fail("frame buffer %dx%d asked to draw (%d, %d)", w, h, x, y);
        ++n[y * w + x];
    }
    bool at(int x, int y) const { return n[y * w + x] > 0; }
};
struct Glyph
{
    int w, h, ox, oy, adv;
    std::unique_ptr<uint8_t[]> d;
};
static Glyph g_glyphs[256];
static const embedded::fonts::EmbeddedFont* g_asked;
namespace embedded::fonts
{
EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(char c) const
{
    g_asked = this;
    auto& g = g_glyphs[uint8_t(c)];
    CharacterBitmap r { { g.d.get(), size_t((g.w * g.h + 7) / 8) }, { uint8_t(g.w), uint8_t(g.h) }, { int8_t(g.ox), int8_t(g.oy) }, uint8_t(g.adv) };
    return r;
}
}
struct P { long x, y; };
static P rot(int r, P p, int W, int H)
{
    switch (r)
    {
    case 0: return p;
    case 1: return { W - 1 - p.y, p.x };
    case 2: return { W - 1 - p.x, H - 1 - p.y };
    default: return { p.y, H - 1 - p.x };
    }
}
static P unrot(int r, P p, int W, int H)
{
    switch (r)
    {
    case 0: return p;
    case 1: return { p.y, W - 1 - p.x };
    case 2: return { W - 1 - p.x, H - 1 - p.y };
    default: return { H - 1 - p.y, p.x };
    }
}
static int coord(int m)
{
    switch (rnd(6))
    {
    case 0: return -int(rnd(300));
    case 1: return m + int(rnd(300)) - 3;
    case 2: return int(rnd(5)) - 2;
    default: return int(rnd(m + 6)) - 3;
    }
}
static void setGlyph(Glyph& g, bool big)
{
    g.w = rnd(big ? 20 : 9);
    g.h = rnd(big ? 20 : 9);
    if (big && rnd(6) == 0) { g.w = 130 + rnd(126); g.h = 1 + rnd(8); }
    if (big && rnd(6) == 0) { g.h = 130 + rnd(126); g.w = 1 + rnd(8); }
    g.ox = int(rnd(256)) - 128; if (rnd(3)) g.ox = int(rnd(7)) - 3;
    g.oy = int(rnd(256)) - 128; if (rnd(3)) g.oy = int(rnd(20)) - 15;
    g.adv = rnd(2) ? rnd(12) : rnd(256);
    int n = (g.w * g.h + 7) / 8;
    g.d.reset(new uint8_t[n]);
    for (int i = 0; i < n; ++i) g.d[i] = uint8_t(rnd());
}
// light the bits of a character in the model
static void model(Rec& m, const Glyph& g, int r, int x, int y)
{
    for (int row = 0; row < g.h; ++row)
        for (int col = 0; col < g.w; ++col)
        {
            int i = row * g.w + col;
            if (!(g.d[i / 8] >> (7 - i % 8) & 1)) continue;
            P q = rot(r, { x + g.ox + col, y + g.oy + row }, m.w, m.h);
            if (q.x >= 0 && q.y >= 0 && q.x < m.w && q.y < m.h) m.n[q.y * m.w + q.x] = 1;
        }
}
static void same(const Rec& a, const Rec& m, const char* what)
{
    for (int y = 0; y < a.h; ++y)
        for (int x = 0; x < a.w; ++x)
            if (a.at(x, y) != m.at(x, y)) fail("%s: pixel (%d, %d) is %s", what, x, y, a.at(x, y) ? "lit, should not be" : "not lit, should be");
}
static void one(const std::string& prop)
{
    int W = 1 + rnd(rnd(8) ? 40 : 300), H = 1 + rnd(rnd(8) ? 40 : 300), r = rnd(4);
    Rec f(W, H), m(W, H);
    Canvas c(f);
    if (c.getRotation() != Canvas::Rotation::Rotation0 || c.getSize().width != W || c.getSize().height != H) fail("new canvas");
    if (rnd(2)) c.setRotation(Canvas::Rotation(rnd(4)));
    c.setRotation(Canvas::Rotation(r));
    int lw = r % 2 ? H : W, lh = r % 2 ? W : H;
    note("frame buffer %dx%d rotation %d: ", W, H, r * 90);
    if (c.getSize().width != lw || c.getSize().height != lh) fail("size %dx%d", c.getSize().width, c.getSize().height);
    int kind = prop == "C02" ? 0 : prop == "C03" ? 1 + rnd(3) : prop == "C04" ? 4 : prop == "C05" ? 5 + rnd(2) : rnd(7);
    int x = coord(lw), y = coord(lh);
    switch (kind)
    {
    case 0:
    {
        note("drawPixel(%d, %d)", x, y);
        c.drawPixel({ x, y });
        P q = rot(r, { x, y }, W, H);
        if (q.x >= 0 && q.y >= 0 && q.x < W && q.y < H) m.n[q.y * W + q.x] = 1;
        same(f, m, "pixel");
        break;
    }
    case 1:
    case 2:
    {
        int w = 1 + rnd(rnd(4) ? 30 : 300), h = 1 + rnd(rnd(4) ? 30 : 300);
        bool fill = kind == 2;
        if (prop == "C01" && rnd(3) == 0) { w = int(rnd(9)) - 4; h = int(rnd(9)) - 4; }
        note("%s(%d, %d, %d, %d)", fill ? "drawFilledRectangle" : "drawRectangle", x, y, w, h);
        if (fill) c.drawFilledRectangle({ { x, y }, { w, h } });
        else c.drawRectangle({ { x, y }, { w, h } });
        if (w < 1 || h < 1) break;
        for (int Y = 0; Y < H; ++Y)
            for (int X = 0; X < W; ++X)
            {
                P u = unrot(r, { X, Y }, W, H);
                bool in = u.x >= x && u.x < x + w && u.y >= y && u.y < y + h;
                if (!fill && in) in = u.x == x || u.x == x + w - 1 || u.y == y || u.y == y + h - 1;
                m.n[Y * W + X] = in;
            }
        same(f, m, fill ? "filled rectangle" : "rectangle");
        auto t = c.transformCoords(Canvas::Rect { { x, y }, { w, h } });
        P a = rot(r, { x, y }, W, H), b = rot(r, { x + w - 1, y + h - 1 }, W, H);
        if (t.topLeft.x != std::min(a.x, b.x) || t.topLeft.y != std::min(a.y, b.y) || t.topLeft.x + t.size.width - 1 != std::max(a.x, b.x) ||
            t.topLeft.y + t.size.height - 1 != std::max(a.y, b.y))
            fail("transformed rectangle (%d, %d, %d, %d)", t.topLeft.x, t.topLeft.y, t.size.width, t.size.height);
        break;
    }
    case 3:
    {
        int x2 = coord(lw), y2 = coord(lh);
        if (rnd(5) == 0) y2 = y;
        else if (rnd(4) == 0) x2 = x;
        else if (rnd(4) == 0) y2 = y + (rnd(2) ? x2 - x : x - x2);
        else if (rnd(4) == 0) { x2 = x + int(rnd(40)) - 20; y2 = y + int(rnd(40)) - 20; }
        if (rnd(24) == 0)
        {
            // most of the line is far outside
            int b = 8 + rnd(11);
            x2 = x + int(rnd(2 << b)) - (1 << b);
            y2 = y + int(rnd(2 << b)) - (1 << b);
            if (rnd(2)) { std::swap(x, x2); std::swap(y, y2); }
        }
        note("drawLine(%d, %d, %d, %d)", x, y, x2, y2);
        c.drawLine({ x, y }, { x2, y2 });
        long dx = std::abs(x2 - x), dy = std::abs(y2 - y), L = std::max(dx, dy);
        std::vector<int> cnt(L + 1, 0), all(L + 1, 0);
        for (int Y = 0; Y < H; ++Y)
            for (int X = 0; X < W; ++X)
            {
                P u = unrot(r, { X, Y }, W, H);
                // 2 * distance along the shorter axis, times L
                long t = dx >= dy ? (u.x - x) * (x2 < x ? -1 : 1) : (u.y - y) * (y2 < y ? -1 : 1);
                long s = dx >= dy ? (u.y - y) * (y2 < y ? -1 : 1) : (u.x - x) * (x2 < x ? -1 : 1);
                long D = std::min(dx, dy);
                long cr = s * L - t * D;
                bool lit = f.at(X, Y);
                if (t < 0 || t > L || (L ? 2 * std::abs(cr) > L : s != 0))
                {
                    if (lit) fail("line lights (%d, %d), not within half a pixel of it", X, Y);
                    continue;
                }
                ++all[t];
                if (lit && ++cnt[t] > 1) fail("line lights two pixels at step %ld", t);
                if (!lit && 2 * std::abs(cr) < std::max(L, 1L)) fail("line does not light (%d, %d)", X, Y);
            }
        auto v = [&](int a, int b) { return a >= 0 && b >= 0 && a < lw && b < lh; };
        if (v(x, y) && v(x2, y2))
            for (long t = 0; t <= L; ++t)
                if (cnt[t] != 1) fail("visible line lights %d pixels at step %ld", cnt[t], t);
        break;
    }
    case 4:
    {
        int R = rnd(4) ? rnd(25) : rnd(160);
        bool fill = rnd(2);
        if (rnd(3) == 0) { x = lw / 2; y = lh / 2; }
        if (rnd(400) == 0)      // an arc of a large circle
        {
            R = 300 + rnd(32400);
            fill = fill && R < 2000;
            double a = rnd(6283) / 1000.0;
            x = lw / 2 - int(R * cos(a)); y = lh / 2 - int(R * sin(a));
            if (x < -32768 || x > 32767 || y < -32768 || y > 32767) { x = lw / 2 + R * (x > 0 ? 1 : -1); y = lh / 2; }
            if (x < -32768 || x > 32767) { x = lw / 2; R = 300; }
        }
        if (prop == "C01" && rnd(8) == 0) R = -R;
        note("drawCircle(%d, %d, %d, %s)", x, y, R, fill ? "filled" : "outline");
        c.drawCircle({ x, y }, R, fill);
        if (R < 0) break;
        P q = rot(r, { x, y }, W, H);
        std::vector<int> rows(2 * R + 1, 0), cols(2 * R + 1, 0);
        for (int Y = 0; Y < H; ++Y)
            for (int X = 0; X < W; ++X)
            {
                long dx = std::labs(X - q.x), dy = std::labs(Y - q.y), e = dx * dx + dy * dy - long(R) * R;
                bool lit = f.at(X, Y);
                if (lit && (dx > R || dy > R)) fail("circle lights (%d, %d), farther than its radius", X, Y);
                if (lit && (e > dx + dy || (!fill && -e > dx + dy))) fail("circle lights (%d, %d), not on the circle", X, Y);
                if (!lit && ((dx == 0 && dy == R) || (dy == 0 && dx == R))) fail("extreme point (%d, %d) is not lit", X, Y);
                if (fill && !lit && e <= -dx - dy) fail("inner point (%d, %d) is not lit", X, Y);
                if (lit)
                {
                    long mx = 2 * q.x - X, my = 2 * q.y - Y;
                    if (mx >= 0 && mx < W && !f.at(mx, Y)) fail("(%d, %d) is lit, its mirror image (%ld, %d) is not", X, Y, mx, Y);
                    if (my >= 0 && my < H && !f.at(X, my)) fail("(%d, %d) is lit, its mirror image (%d, %ld) is not", X, Y, X, my);
                    rows[Y - q.y + R] = cols[X - q.x + R] = 1;
                }
            }
        if (q.x >= R && q.y >= R && q.x + R < W && q.y + R < H)
            for (int i = 0; i <= 2 * R; ++i)
                if (!rows[i] || !cols[i]) fail("circle has a gap in row or column %d", i - R);
        break;
    }
    case 5:
    {
        char ch = char(rnd());
        auto& g = g_glyphs[uint8_t(ch)];
        setGlyph(g, true);
        union { char raw[sizeof(embedded::fonts::EmbeddedFont)]; long l; } mem;
        auto& font = reinterpret_cast<embedded::fonts::EmbeddedFont&>(mem);
        note("drawCharAt(%d, %d, %d) with a %dx%d glyph at offset (%d, %d)", x, y, ch, g.w, g.h, g.ox, g.oy);
        int adv = c.drawCharAt({ x, y }, ch, font);
        if (adv != g.adv) fail("returned %d, the glyph's advance is %d", adv, g.adv);
        if (g_asked != &font) fail("another font was asked");
        model(m, g, r, x, y);
        same(f, m, "character");
        break;
    }
    default:
    {
        std::string t;
        int n = rnd(9);
        for (int i = 0; i < n; ++i) t += char(rnd(2) ? rnd() : 'a' + rnd(3));
        for (char ch : t) setGlyph(g_glyphs[uint8_t(ch)], false);
        union { char raw[sizeof(embedded::fonts::EmbeddedFont)]; long l; } mem;
        auto& font = reinterpret_cast<embedded::fonts::EmbeddedFont&>(mem);
        note("drawStringAt(%d, %d) of", x, y);
        for (char ch : t) note(" %d(%dx%d adv %d)", ch, g_glyphs[uint8_t(ch)].w, g_glyphs[uint8_t(ch)].h, g_glyphs[uint8_t(ch)].adv);
        std::unique_ptr<char[]> exact(new char[n]);
        std::copy(t.begin(), t.end(), exact.get());
        c.drawStringAt({ x, y }, std::string_view(exact.get(), n), font);
        int px = x;
        for (char ch : t)
        {
            model(m, g_glyphs[uint8_t(ch)], r, px, y);
            px += g_glyphs[uint8_t(ch)].adv;
        }
        same(f, m, "text");
    }
    }
    if (int(c.getRotation()) != r || c.getSize().width != lw || c.getSize().height != lh) fail("drawing changed the canvas");
}
int main(int argc, char** argv) { return search(argc, argv, one); }
