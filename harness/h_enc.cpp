// Harness: the real EncodingConverter; iconv and std::string construction are contracts.
// Compiled without exceptions: the throw statement of the constructor is dropped.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <iconv.h>
#define throw(x) ((void)sizeof(x))
#include "gfx-font-converter/EncodingConverter.cpp"
#undef throw
extern EncodingConverter& g_ref;
struct EncodingConverterBox { long a[sizeof(EncodingConverter) / sizeof(long)]; };
union Box { EncodingConverter c; Box(); ~Box(); };
extern Box g_obj;
extern "C" {
void* w_obj() { return &g_obj; }
void w_ctor(void* m, const char* f, const char* t) { new (m) EncodingConverter(f, t); }
void w_dtor(EncodingConverter* c) { c->~EncodingConverter(); }
void w_conv(EncodingConverter* c, char s, void* out) { new (out) std::string(c->convert(s)); }
unsigned w_raw(EncodingConverter* c, char s) { return c->convertRaw(s); }
int w_einval() { return EINVAL; }
unsigned long w_size() { return sizeof(EncodingConverter); }
}
