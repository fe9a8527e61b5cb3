// Harness: MemoryView (three element types) and the endianness conversions.
#include "MemoryView.h"
#include "EndianConversion.h"
#include <cstring>
#include <iterator>
using embedded::MemoryView;
typedef unsigned long ul;
#define VIEWS(T, S)                                                                                                  \
    extern "C" {                                                                                                     \
    T* sub_p_##S(T* p, ul n, ul o, ul c) { return MemoryView<T>(p, n).subspan(o, c).begin(); }                       \
    ul sub_n_##S(T* p, ul n, ul o, ul c) { return MemoryView<T>(p, n).subspan(o, c).size(); }                        \
    T* sub1_p_##S(T* p, ul n, ul o) { return MemoryView<T>(p, n).subspan(o).begin(); }                               \
    ul sub1_n_##S(T* p, ul n, ul o) { return MemoryView<T>(p, n).subspan(o).size(); }                                \
    T* first_p_##S(T* p, ul n, ul c) { return MemoryView<T>(p, n).first(c).begin(); }                                \
    ul first_n_##S(T* p, ul n, ul c) { return MemoryView<T>(p, n).first(c).size(); }                                 \
    T* last_p_##S(T* p, ul n, ul c) { return MemoryView<T>(p, n).last(c).begin(); }                                  \
    ul last_n_##S(T* p, ul n, ul c) { return MemoryView<T>(p, n).last(c).size(); }                                   \
    const unsigned char* bytes_p_##S(T* p, ul n) { return MemoryView<T>(p, n).as_bytes().begin(); }                  \
    ul bytes_n_##S(T* p, ul n) { return MemoryView<T>(p, n).as_bytes().size(); }                                     \
    T* at_##S(T* p, ul n, ul i) { return &MemoryView<T>(p, n)[i]; }                                                  \
    T* front_##S(T* p, ul n) { return &MemoryView<T>(p, n).front(); }                                                \
    T* back_##S(T* p, ul n) { return &MemoryView<T>(p, n).back(); }                                                  \
    T* begin_##S(T* p, ul n) { return MemoryView<T>(p, n).begin(); }                                                 \
    T* end_##S(T* p, ul n) { return MemoryView<T>(p, n).end(); }                                                     \
    const T* cbegin_##S(T* p, ul n) { return MemoryView<T>(p, n).cbegin(); }                                         \
    const T* cend_##S(T* p, ul n) { return MemoryView<T>(p, n).cend(); }                                             \
    T* data_##S(T* p, ul n) { return MemoryView<T>(p, n).data(); }                                                   \
    ul size_##S(T* p, ul n) { return MemoryView<T>(p, n).size(); }                                                   \
    ul sizeb_##S(T* p, ul n) { return MemoryView<T>(p, n).size_bytes(); }                                            \
    bool empty_##S(T* p, ul n) { return MemoryView<T>(p, n).empty(); }                                               \
    ul range_n_##S(T* p, ul n) { return MemoryView<T>(p, p + n).size(); }                                            \
    T* range_p_##S(T* p, ul n) { return MemoryView<T>(p, p + n).begin(); }                                           \
    const T* conv_p_##S(T* p, ul n) { MemoryView<T> v(p, n); MemoryView<const T> c = v; return c.begin(); }          \
    ul conv_n_##S(T* p, ul n) { MemoryView<T> v(p, n); MemoryView<const T> c = v; return c.size(); }                 \
    T* rlast_##S(T* p, ul n) { return &*MemoryView<T>(p, n).rbegin(); }                                              \
    const T* crlast_##S(T* p, ul n) { return &*MemoryView<T>(p, n).crbegin(); }                                      \
    T* rend_##S(T* p, ul n) { return MemoryView<T>(p, n).rend().base(); }                                            \
    const T* crend_##S(T* p, ul n) { return MemoryView<T>(p, n).crend().base(); }                                    \
    T* carr_p_##S(T* p) { return MemoryView<T>(*(T(*)[5])p).begin(); }                                               \
    ul carr_n_##S(T* p) { return MemoryView<T>(*(T(*)[5])p).size(); }                                                \
    T* sarr_p_##S(T* p) { return MemoryView<T>(*(std::array<T, 7>*)p).begin(); }                                     \
    ul sarr_n_##S(T* p) { return MemoryView<T>(*(std::array<T, 7>*)p).size(); }                                      \
    ul dflt_n_##S() { return MemoryView<T>().size(); }                                                               \
    bool dflt_e_##S() { return MemoryView<T>().empty(); }                                                            \
    }
VIEWS(char, c)
VIEWS(unsigned char, b)
VIEWS(unsigned int, w)
struct Odd { unsigned char x[6]; };
VIEWS(Odd, o)
extern "C" {
const char* sv_p(char* p, ul n) { return std::string_view(MemoryView<char>(p, n)).data(); }
ul sv_n(char* p, ul n) { return std::string_view(MemoryView<char>(p, n)).size(); }
const char* csv_p(char* p, ul n) { return std::string_view(MemoryView<const char>(p, n)).data(); }
ul csv_n(char* p, ul n) { return std::string_view(MemoryView<const char>(p, n)).size(); }
unsigned char* wb_p(unsigned int* p, ul n) { return MemoryView<unsigned int>(p, n).as_writable_bytes().begin(); }
ul wb_n(unsigned int* p, ul n) { return MemoryView<unsigned int>(p, n).as_writable_bytes().size(); }

unsigned short e16(unsigned short x) { return embedded::changeEndianess((uint16_t)x); }
unsigned int e32(unsigned int x) { return embedded::changeEndianess((uint32_t)x); }
unsigned int ef(unsigned int x) { float f = embedded::changeEndianessToFloat(x); unsigned int r; memcpy(&r, &f, 4); return r; }
void e16x2(unsigned int* p) { embedded::changeEndianess16x2(p); }
}
