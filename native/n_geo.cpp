// Executable oracle for points, sizes, rectangles and matrices.
#include "n_common.h"
#include "graphics/BaseGeometry.h"
#include <limits>
using namespace embedded;
typedef long long ll;
#define REQ(c) do { if (!(c)) fail("%s", #c); } while (0)
template <class T> static ll pick()
{
    ll lo = sizeof(T) == 4 ? -(1 << 29) : (ll)std::numeric_limits<T>::min(), hi = sizeof(T) == 4 ? 1 << 29 : (ll)std::numeric_limits<T>::max();
    switch (rnd(4))
    {
    case 0: return lo + (ll)rnd(uint64_t(hi - lo + 1));
    case 1: return rnd(2) ? lo + (ll)rnd(3) : hi - (ll)rnd(3);
    default: { ll v = (ll)rnd(200) - 100; return v < lo ? lo : v > hi ? hi : v; }
    }
}
template <class T> static bool fits(ll v) { return sizeof(T) == 4 || (v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max()); }
template <class T> static void eq(const char* what, T got, ll want)
{
    if (fits<T>(want) && (ll)got != want)
        fail("%s: %lld instead of %lld", what, (ll)got, want);
}
static bool small(ll p) { return p >= -(1 << 29) && p <= (1 << 29); }
template <class T> static void run1(const char* ty)
{
    ll x = pick<T>(), y = pick<T>(), w = pick<T>(), h = pick<T>(), u = pick<T>(), v = pick<T>();
    if (rnd(3) == 0) w = x;
    if (rnd(3) == 0) h = y;
    note("%s x=%lld y=%lld w=%lld h=%lld u=%lld v=%lld", ty, x, y, w, h, u, v);
    Point<T> p { T(x), T(y) };
    Size<T> s { T(w), T(h) }, z { T(u), T(v) };
    Rect<T> r(p, s);
    auto a = p + s;
    eq<T>("point + size x", a.x, x + w);
    eq<T>("point + size y", a.y, y + h);
    a = p;
    REQ(&(a += s) == &a);
    eq<T>("point += size x", a.x, x + w);
    eq<T>("point += size y", a.y, y + h);
    REQ((p == Point<T> { T(w), T(h) }) == (x == w && y == h));
    REQ((p != Point<T> { T(w), T(h) }) == !(x == w && y == h));
    auto d = Size<T> { T(x), T(y) } - s;
    eq<T>("size - size width", d.width, x - w);
    eq<T>("size - size height", d.height, y - h);
    if (w >= 1 && h >= 1)
    {
        eq<T>("bottomLeft x", r.bottomLeft().x, x);
        eq<T>("bottomLeft y", r.bottomLeft().y, y + h - 1);
        eq<T>("bottomRight x", r.bottomRight().x, x + w - 1);
        eq<T>("bottomRight y", r.bottomRight().y, y + h - 1);
    }
    auto four = [&](const char* what, auto q, ll a, ll b, ll c, ll d) {
        typedef decltype(q.topLeft.x) U;
        eq<U>(what, q.topLeft.x, a), eq<U>(what, q.topLeft.y, b), eq<U>(what, q.size.width, c), eq<U>(what, q.size.height, d);
    };
    four("rect", r, x, y, w, h);
    four("rect + size", r + z, x + u, y + v, w, h);
    auto q = r;
    REQ(&(q += z) == &q);
    four("rect += size", q, x + u, y + v, w, h);
    four("rect to int", Rect<int>(r), x, y, w, h);
    four("rect from int", Rect<T>(Rect<int>(Point<int> { (int)x, (int)y }, Size<int> { (int)w, (int)h })), x, y, w, h);
    if (small(x * u) && small(y * v) && small(w * u) && small(h * v))
    {
        auto m = Matrix2x2<T>(T(x), T(y), T(w), T(h)) * Point<T> { T(u), T(v) };
        eq<T>("matrix x", m.x, x * u + y * v);
        eq<T>("matrix y", m.y, w * u + h * v);
    }
    if constexpr (sizeof(T) == 4)
    {
        auto e = s + z;
        eq<T>("size + size", e.width, w + u);
        eq<T>("size + size", e.height, h + v);
        if (small(w * u) && small(h * u))
        {
            e = s * u;
            eq<T>("size * scale", e.width, w * u);
            eq<T>("size * scale", e.height, h * u);
        }
        if (u)
        {
            e = s / u;
            eq<T>("size / scale", e.width, w / u);
            eq<T>("size / scale", e.height, h / u);
        }
        if (w >= 1 && h >= 1)
        {
            eq<T>("topRight", r.topRight().x, x + w - 1);
            eq<T>("topRight", r.topRight().y, y);
        }
    }
}
static void run(const std::string&)
{
    switch (rnd(4))
    {
    case 0: run1<int16_t>("int16_t"); break;
    case 1: run1<int8_t>("int8_t"); break;
    case 2: run1<uint8_t>("uint8_t"); break;
    default: run1<int>("int");
    }
}
int main(int c, char** v) { return search(c, v, run); }
