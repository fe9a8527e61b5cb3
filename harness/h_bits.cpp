// Harness: the real BitStream template over a stream whose byte insertion is an external contract.
#include <cstddef>
#include <cstdint>
#include <new>
#include "gfx-font-converter/BitStream.h"
struct Sink;
extern "C" void emit(Sink*, unsigned char);
struct Sink
{
    int dummy;
    Sink& operator<<(uint8_t b) { emit(this, b); return *this; }
};
using Bits = BitStream<Sink>;
extern Bits g_obj;
extern "C" {
void* w_obj() { return &g_obj; }
void w_ctor(void* m, Sink* s) { new (m) Bits(*s); }
void w_bit(Bits* b, bool v) { *b << v; }
void w_byte(Bits* b, uint8_t v) { *b << v; }
void w_flush(Bits* b) { b->flush(); }
Bits* r_bit(Bits* b, bool v) { return &(*b << v); }
Bits* r_byte(Bits* b, uint8_t v) { return &(*b << v); }
}
