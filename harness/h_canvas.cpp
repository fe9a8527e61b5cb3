// Harness: the real Canvas over a frame buffer whose virtual functions are given by contracts.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <iterator>
#include <new>
#include <array>
#include <string_view>
#include "graphics/Canvas.cpp"
extern "C" {
int fb_width();
int fb_height();
void fb_draw(int x, int y);
void fb_color(uint32_t c);
void fb_clear(uint32_t c);
const uint8_t* fb_image();
}
struct GhostFB : FrameBufferBase
{
    int getWidth() const override { return fb_width(); }
    int getHeight() const override { return fb_height(); }
    embedded::BytesView getImage() override { return { const_cast<uint8_t*>(fb_image()), 1 }; }
    embedded::ConstBytesView getImage() const override { return { fb_image(), 1 }; }
    void clear(uint32_t color) override { fb_clear(color); }
    void drawPixel(int posX, int posY) override { fb_draw(posX, posY); }
    void setColor(uint32_t color) override { fb_color(color); }
};
extern GhostFB g_fb;
extern Canvas g_canvas;
extern embedded::fonts::EmbeddedFont g_font;
// memory layout of a looked-up glyph, for the contract of EmbeddedFont::getBitmap
extern "C" {
void* obj_fb() { return &g_fb; }
void* obj_canvas() { return &g_canvas; }
void* obj_font() { return &g_font; }
void w_fb(void* m) { new (m) GhostFB(); }
void w_ctor(void* m, GhostFB* f) { new (m) Canvas(*f); }
void w_rot(Canvas* c, int r) { c->setRotation(Canvas::Rotation(r)); }
int q_rot(const Canvas* c) { return int(c->getRotation()); }
int q_w(const Canvas* c) { return c->getSize().width; }
int q_h(const Canvas* c) { return c->getSize().height; }
void w_pixel(Canvas* c, int x, int y) { c->drawPixel({ x, y }); }
void w_line(Canvas* c, int x, int y, int x2, int y2) { c->drawLine({ x, y }, { x2, y2 }); }
void w_rect(Canvas* c, int x, int y, int w, int h) { c->drawRectangle({ { x, y }, { w, h } }); }
void w_frect(Canvas* c, int x, int y, int w, int h) { c->drawFilledRectangle({ { x, y }, { w, h } }); }
void w_circle(Canvas* c, int x, int y, int r, bool f) { c->drawCircle({ x, y }, r, f); }
int w_char(Canvas* c, int x, int y, char ch) { return c->drawCharAt({ x, y }, ch, g_font); }
void w_text(Canvas* c, int x, int y, const char* p, unsigned long n) { c->drawStringAt({ x, y }, std::string_view(p, n), g_font); }
void w_color(Canvas* c, uint32_t v) { c->setColor(v); }
void w_clear(Canvas* c, uint32_t v) { c->clear(v); }
const uint8_t* q_image(const Canvas* c) { return c->getImage().begin(); }
void q_trect(const Canvas* c, int* r, int x, int y, int w, int h)
{
    auto t = c->transformCoords(Canvas::Rect { { x, y }, { w, h } });
    r[0] = t.topLeft.x; r[1] = t.topLeft.y; r[2] = t.size.width; r[3] = t.size.height;
}
void mk_bitmap(embedded::fonts::EmbeddedFont::CharacterBitmap* out, const uint8_t* p, unsigned long n, uint8_t w, uint8_t h, int8_t ox, int8_t oy, uint8_t adv)
{
    new (out) embedded::fonts::EmbeddedFont::CharacterBitmap { { p, n }, { w, h }, { ox, oy }, adv };
}
}
