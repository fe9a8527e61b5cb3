// Harness: the real table writers of the font converter (main.cpp); the text output behind them is
// represented by the contracts proved of it (stubs/x/BufferedOut.h), iostreams and std::string by
// contracts.  Compiled with exception handling ignored.
#include <new>
#define main converter_main
#include "gfx-font-converter/main.cpp"
#undef main
union HexBox { HexStringStream s; HexBox(); ~HexBox(); };
union GlyphBox { TextGlyphStream s; GlyphBox(); ~GlyphBox(); };
extern HexBox g_hex;
extern GlyphBox g_tab;
extern GlyphDescriptor g_desc;
extern "C" {
void* w_hex() { return &g_hex; }
void* w_tab() { return &g_tab; }
void* w_desc() { return &g_desc; }
void w_hex_ctor(void* m, std::ostream* o, const std::string* n) { new (m) HexStringStream(*o, *n); }
void w_hex_put(HexStringStream* s, uint8_t b) { *s << b; }
int w_hex_count(HexStringStream* s) { return s->getBytesWritten(); }
void w_hex_dtor(HexStringStream* s) { s->~HexStringStream(); }
void w_tab_ctor(void* m, std::ostream* o, const std::string* n, const std::string* e) { new (m) TextGlyphStream(*o, *n, *e); }
void w_tab_put(TextGlyphStream* s, const GlyphDescriptor* g) { *s << *g; }
void w_tab_dtor(TextGlyphStream* s) { s->~TextGlyphStream(); }
int w_g0(const GlyphDescriptor* g) { return g->bitmapOffset; }
int w_g1(const GlyphDescriptor* g) { return g->size.width; }
int w_g2(const GlyphDescriptor* g) { return g->size.height; }
int w_g3(const GlyphDescriptor* g) { return g->shift; }
int w_g4(const GlyphDescriptor* g) { return g->offset.width; }
int w_g5(const GlyphDescriptor* g) { return g->offset.height; }
void w_vec(std::vector<uint8_t>* v, uint8_t b) { VectorStream s(*v); s << b; }
}
