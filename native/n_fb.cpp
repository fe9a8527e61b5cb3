// Executable oracle for SimpleFrameBuffer: an array of pixel values.
#include "n_common.h"
#include <algorithm>
#include <array>
#include <iterator>
#include <memory>
#include "SimpleFrameBuffer.h"
template <int D> static uint32_t px(const uint8_t* p, int w, int x, int y)
{
    uint32_t v = 0;
    for (int i = 0; i < D; ++i)
    {
        size_t bit = ((size_t)y * w + x) * D + i;
        v = v << 1 | (p[bit / 8] >> (7 - bit % 8) & 1);
    }
    return v;
}
template <int W, int H, int D> static void run(const std::string& prop)
{
    using F = SimpleFrameBuffer<W, H, D>;
    const uint32_t mask = D == 32 ? 0xFFFFFFFFu : (1u << (D % 32)) - 1;
    auto f = std::make_unique<F>();
    FrameBufferBase* b = f.get();
    note("%dx%dx%d", W, H, D);
    auto img = b->getImage();
    auto cimg = static_cast<const FrameBufferBase*>(b)->getImage();
    size_t n = (size_t)W * H * D / 8;
    if (b->getWidth() != W || b->getHeight() != H) fail("reported size %dx%d", b->getWidth(), b->getHeight());
    if (img.size() != n || cimg.size() != n || cimg.begin() != img.begin()) fail("image views: %zu and %zu bytes, expected %zu", img.size(), cimg.size(), n);
    if ((uint8_t*)img.begin() < (uint8_t*)f.get() || (uint8_t*)img.begin() + n > (uint8_t*)(f.get() + 1)) fail("image outside the object");
    for (auto& c : img) c = rnd(256);
    std::vector<uint32_t> m(W * H);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) m[y * W + x] = px<D>(img.begin(), W, x, y);
    uint32_t sel = 0;
    bool known = false;
    auto col = [] { return rnd(2) ? (uint32_t)interesting() : 1u << rnd(32); };
    for (int i = 0, k = 1 + rnd(10); i < k; ++i)
    {
        int x = rnd(W), y = rnd(H);
        uint32_t c = col();
        switch (rnd(8))
        {
        case 0: note(" clear(%x)", c); b->clear(c); for (auto& v : m) v = D == 1 ? c != 0 : c & mask; break;
        case 1: case 2: note(" color(%x)", c); b->setColor(c); sel = c & mask; known = true; break;
        case 3: case 4: note(" draw(%d,%d,%x)", x, y, c); f->drawPixel(x, y, c); m[y * W + x] = D == 1 ? c != 0 : c & mask; break;
        default: if (!known) break; note(" draw(%d,%d)", x, y); b->drawPixel(x, y); m[y * W + x] = sel; break;
        }
        for (int Y = 0; Y < H; ++Y) for (int X = 0; X < W; ++X)
        {
            uint32_t v = px<D>(img.begin(), W, X, Y);
            if (v != m[Y * W + X]) fail("pixel (%d,%d) is %x, expected %x", X, Y, v, m[Y * W + X]);
        }
    }
}
template <int D, int... WH> struct L;
static void one(const std::string& prop)
{
    switch (rnd(24))
    {
    case 0: return run<8, 3, 1>(prop);
    case 1: return run<24, 300, 1>(prop);
    case 2: return run<400, 2, 1>(prop);
    case 3: return run<4, 5, 2>(prop);
    case 4: return run<4, 300, 2>(prop);
    case 5: return run<300, 3, 2>(prop);
    case 6: return run<2, 3, 4>(prop);
    case 7: return run<2, 400, 4>(prop);
    case 8: return run<300, 2, 4>(prop);
    case 9: return run<1, 1, 8>(prop);
    case 10: return run<3, 300, 8>(prop);
    case 11: return run<330, 3, 8>(prop);
    case 12: return run<3, 2, 16>(prop);
    case 13: return run<2, 300, 16>(prop);
    case 14: return run<300, 3, 16>(prop);
    case 15: return run<1, 3, 24>(prop);
    case 16: return run<1, 300, 24>(prop);
    case 17: return run<300, 2, 24>(prop);
    case 18: return run<2, 2, 32>(prop);
    case 19: return run<2, 290, 32>(prop);
    case 20: return run<300, 1, 32>(prop);
    case 21: return rnd(100) ? void() : run<296, 128, 2>(prop);
    case 22: return rnd(100) ? void() : run<400, 300, 1>(prop);
    default: return rnd(100) ? void() : run<320, 240, 24>(prop);
    }
}
int main(int argc, char** argv) { return search(argc, argv, one); }
