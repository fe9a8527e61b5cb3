// Harness: points, sizes, rectangles and 2x2 matrices, for each component type in use.
#include "graphics/BaseGeometry.h"
using namespace embedded;
typedef int i;
typedef int16_t s;
typedef int8_t c;
typedef uint8_t b;
#define COMP(name, T, expr, U)                                                          \
    int name##_0_##T U { auto r = expr; return r.topLeft.x; }                           \
    int name##_1_##T U { auto r = expr; return r.topLeft.y; }                           \
    int name##_2_##T U { auto r = expr; return r.size.width; }                          \
    int name##_3_##T U { auto r = expr; return r.size.height; }
#define PT(name, T, expr, U)                                                            \
    int name##_0_##T U { auto r = expr; return r.x; }                                   \
    int name##_1_##T U { auto r = expr; return r.y; }
#define SZ(name, T, expr, U)                                                            \
    int name##_0_##T U { auto r = expr; return r.width; }                               \
    int name##_1_##T U { auto r = expr; return r.height; }
#define P4(T) (T x, T y, T w, T h)
#define P6(T) (T x, T y, T w, T h, T u, T v)
#define PS(T) (Point<T> { x, y })
#define SS(T) (Size<T> { w, h })
#define RS(T) (Rect<T>(Point<T> { x, y }, Size<T> { w, h }))
template <class T> Point<T> inc(Point<T> p, Size<T> s) { Point<T>& q = p += s; return &q == &p ? p : Point<T> { T(p.x + 1), p.y }; }
template <class T> Rect<T> incr(Rect<T> p, Size<T> s) { Rect<T>& q = p += s; return &q == &p ? p : Rect<T>(Point<T> { T(p.topLeft.x + 1), 0 }, s); }
template <class T> Rect<T> copy(Rect<T> p) { Rect<T> q(p); return q; }
template <class T> Rect<T> zero() { return Rect<T> {}; }
#define ALL(T)                                                                          \
    extern "C" {                                                                        \
    PT(move, T, PS(T) + SS(T), P4(T))                                                   \
    PT(inc, T, inc(PS(T), SS(T)), P4(T))                                                \
    SZ(less, T, (Size<T> { x, y }) - SS(T), P4(T))                                      \
    bool eq_##T P4(T) { return PS(T) == (Point<T> { w, h }); }                          \
    bool ne_##T P4(T) { return PS(T) != (Point<T> { w, h }); }                          \
    PT(bl, T, RS(T).bottomLeft(), P4(T))                                                \
    PT(br, T, RS(T).bottomRight(), P4(T))                                               \
    COMP(rect, T, RS(T), P4(T))                                                         \
    COMP(copy, T, copy(RS(T)), P4(T))                                                   \
    COMP(zero, T, zero<T>(), P4(T))                                                     \
    COMP(shift, T, RS(T) + (Size<T> { u, v }), P6(T))                                   \
    COMP(incr, T, incr(RS(T), Size<T> { u, v }), P6(T))                                 \
    COMP(wide, T, Rect<int>(RS(T)), P4(T))                                              \
    COMP(narrow, T, Rect<T>(RS(int)), P4(int))                                          \
    PT(mat, T, (Matrix2x2<T>(x, y, w, h) * Point<T> { u, v }), P6(T))                   \
    }
ALL(i)
ALL(s)
ALL(c)
ALL(b)
extern "C" {
SZ(more, i, (Size<int> { x, y }) + SS(int), P4(int))
SZ(mul, i, (Size<int> { x, y }) * w, P4(int))
SZ(div, i, (Size<int> { x, y }) / w, P4(int))
PT(tr, i, RS(int).topRight(), P4(int))
}
