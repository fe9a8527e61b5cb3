// Harness: one wrapper per public operation of BufferedOut; the real sources are included.
#include <new>
#include "BufferedOut.cpp"
using embedded::BufferedOut;
using embedded::MemoryView;
extern "C" {
void w_ctor(void* mem, char* p, unsigned long n) { new (mem) BufferedOut(MemoryView<char>(p, n)); }
unsigned long q_size(const BufferedOut* o) { return o->size(); }
unsigned long q_cap(const BufferedOut* o) { return o->capacity(); }
const char* q_sv_data(const BufferedOut* o) { return o->asStringView().data(); }
unsigned long q_sv_size(const BufferedOut* o) { return o->asStringView().size(); }
const unsigned char* q_data_begin(const BufferedOut* o) { return o->data().begin(); }
unsigned long q_data_size(const BufferedOut* o) { return o->data().size(); }
const unsigned char* q_mdata_begin(BufferedOut* o) { return o->data().begin(); }
unsigned long q_mdata_size(BufferedOut* o) { return o->data().size(); }
unsigned char* q_conv(BufferedOut* o) { return static_cast<uint8_t*>(*o); }
const unsigned char* q_cconv(const BufferedOut* o) { return static_cast<const uint8_t*>(*o); }

void w_int(BufferedOut* o, int n) { *o << n; }
void w_uint(BufferedOut* o, unsigned n) { *o << n; }
void w_long(BufferedOut* o, long n) { *o << n; }
void w_ulong(BufferedOut* o, unsigned long n) { *o << n; }
void w_ll(BufferedOut* o, long long n) { *o << n; }
void w_ull(BufferedOut* o, unsigned long long n) { *o << n; }
void w_str(BufferedOut* o, const char* s) { *o << s; }
void w_sv(BufferedOut* o, const char* s, unsigned long n) { *o << std::string_view(s, n); }
void w_char(BufferedOut* o, char c) { *o << c; }
void w_addchar(BufferedOut* o, char c) { o->addChar(c); }
void w_byte(BufferedOut* o, unsigned char b) { *o << b; }
void w_bytes(BufferedOut* o, const unsigned char* p, unsigned long n) { *o << embedded::ConstBytesView(p, n); }
void w_float(BufferedOut* o, float f) { *o << f; }
void w_prec(BufferedOut* o, int p) { *o << BufferedOut::precision { p }; }
void w_width(BufferedOut* o, int w) { *o << BufferedOut::width { w }; }
void w_fill(BufferedOut* o, char c) { *o << BufferedOut::fill { c }; }
void w_clear(BufferedOut* o) { o->clear(); }
unsigned long w_sizeof() { return sizeof(BufferedOut); }
}
extern "C" BufferedOut g_obj;
extern "C" void* w_obj() { return &g_obj; }
