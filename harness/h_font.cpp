// Harness: the real EmbeddedFont over an arbitrary font.
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <iterator>
#include <new>
#include <array>
#include <string_view>
#include "graphics/EmbeddedFont.cpp"
#include "graphics/EmbeddedFonts.cpp"
using namespace embedded::fonts;
extern FontDescriptor g_desc;
extern EmbeddedFont g_font;
extern EmbeddedFont::CharacterBitmap g_glyph;
extern "C" {
void* obj_desc() { return &g_desc; }
void* obj_font() { return &g_font; }
void* obj_glyph() { return &g_glyph; }
void mk_desc(void* m, const uint8_t* b, unsigned long nb, const GlyphDescriptor* g, unsigned long ng, uint8_t first, uint8_t last)
{
    new (m) FontDescriptor { { b, nb }, { g, ng }, first, last, 0 };
}
void mk_font(void* m, const FontDescriptor* d) { new (m) EmbeddedFont(*d); }
void w_lookup(const EmbeddedFont* f, char c, void* out) { new (out) EmbeddedFont::CharacterBitmap(f->getBitmap(c)); }
const uint8_t* q_begin(const EmbeddedFont::CharacterBitmap* g) { return g->bitmap.begin(); }
unsigned long q_size(const EmbeddedFont::CharacterBitmap* g) { return g->bitmap.size(); }
uint8_t q_w(const EmbeddedFont::CharacterBitmap* g) { return g->effectiveSize.width; }
uint8_t q_h(const EmbeddedFont::CharacterBitmap* g) { return g->effectiveSize.height; }
int8_t q_ox(const EmbeddedFont::CharacterBitmap* g) { return g->offset.width; }
int8_t q_oy(const EmbeddedFont::CharacterBitmap* g) { return g->offset.height; }
uint8_t q_adv(const EmbeddedFont::CharacterBitmap* g) { return g->width; }
// layout of the packed glyph table
uint16_t g_off(const GlyphDescriptor* g) { return g->bitmapOffset; }
uint8_t g_w(const GlyphDescriptor* g) { return g->size.width; }
uint8_t g_h(const GlyphDescriptor* g) { return g->size.height; }
int8_t g_ox(const GlyphDescriptor* g) { return g->offset.width; }
int8_t g_oy(const GlyphDescriptor* g) { return g->offset.height; }
uint8_t g_adv(const GlyphDescriptor* g) { return g->shift; }
unsigned long g_bytes() { return sizeof(GlyphDescriptor); }
// the font that comes with the library
unsigned long s_glyphs() { return FreeSans15pt7b.glyph.size(); }
unsigned long s_bytes() { return FreeSans15pt7b.bitmap.size(); }
int s_first() { return FreeSans15pt7b.first; }
int s_last() { return FreeSans15pt7b.last; }
uint16_t s_off(unsigned long i) { return FreeSans15pt7b.glyph[i].bitmapOffset; }
unsigned long s_area(unsigned long i) { return (unsigned long)(FreeSans15pt7b.glyph[i].size.width) * FreeSans15pt7b.glyph[i].size.height; }
void w_bounds(const EmbeddedFont* f, const char* p, unsigned long n, int* r)
{
    auto b = f->getTextBounds(std::string_view(p, n));
    r[0] = b.topLeft.x; r[1] = b.topLeft.y; r[2] = b.size.width; r[3] = b.size.height;
}
void mk_bitmap(EmbeddedFont::CharacterBitmap* out, const uint8_t* p, unsigned long n, uint8_t w, uint8_t h, int8_t ox, int8_t oy, uint8_t adv)
{
    new (out) EmbeddedFont::CharacterBitmap { { p, n }, { w, h }, { ox, oy }, adv };
}
}
