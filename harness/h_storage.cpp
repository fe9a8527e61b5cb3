// Harness: PersistentStorage with objects of 1, 4 and 12 bytes; the real sources are included.
#include <cstring>
#include <algorithm>
#include <new>
#include "PersistentStorage.cpp"
using embedded::PersistentStorage;
template <int N> struct Obj { unsigned char b[N]; };
struct Mixed { unsigned int a; unsigned short b; double c; };
static_assert(sizeof(Mixed) == 16);
extern "C" {
void w_ctor(void* mem, unsigned char* p, unsigned long n, bool init) { new (mem) PersistentStorage(embedded::BytesView(p, n), init); }
}
#define OPS(T, S)                                                                                                                      \
    extern "C" bool w_set_##S(PersistentStorage* s, const char* k, unsigned long n, const unsigned char* v)                            \
    { T o; memcpy(&o, v, sizeof o); return s->set(std::string_view(k, n), o); }                                                        \
    extern "C" bool w_get_##S(const PersistentStorage* s, const char* k, unsigned long n, unsigned char* v)                            \
    { auto r = s->get<T>(std::string_view(k, n)); if (!r) return false; memcpy(v, &*r, sizeof(T)); return true; }
OPS(Obj<1>, 1)
OPS(unsigned int, 4)
OPS(Mixed, 16)
extern "C" PersistentStorage g_obj;
extern "C" void* w_obj() { return &g_obj; }
