// Harness: SimpleFrameBuffer instantiated for every color depth and several sizes; the real header is included.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <iterator>
#include <new>
#include <array>
#include "SimpleFrameBuffer.h"
#define FB(W, H, D)                                                                                                              \
    using fb_##W##_##H##_##D = SimpleFrameBuffer<W, H, D>;                                                                       \
    extern fb_##W##_##H##_##D g_##W##_##H##_##D;                                                                                 \
    extern "C" {                                                                                                                 \
    void* obj_##W##_##H##_##D() { return &g_##W##_##H##_##D; }                                                                    \
    void ctor_##W##_##H##_##D(void* m) { new (m) fb_##W##_##H##_##D(); }                                                          \
    void draw3_##W##_##H##_##D(fb_##W##_##H##_##D* f, int x, int y, uint32_t c) { f->drawPixel(x, y, c); }                         \
    void draw_##W##_##H##_##D(FrameBufferBase* f, int x, int y) { f->drawPixel(x, y); }                                           \
    void color_##W##_##H##_##D(FrameBufferBase* f, uint32_t c) { f->setColor(c); }                                                \
    void clear_##W##_##H##_##D(FrameBufferBase* f, uint32_t c) { f->clear(c); }                                                   \
    int width_##W##_##H##_##D(const FrameBufferBase* f) { return f->getWidth(); }                                                 \
    int height_##W##_##H##_##D(const FrameBufferBase* f) { return f->getHeight(); }                                               \
    unsigned char* imgp_##W##_##H##_##D(FrameBufferBase* f) { return f->getImage().begin(); }                                     \
    unsigned long imgn_##W##_##H##_##D(FrameBufferBase* f) { return f->getImage().size(); }                                       \
    const unsigned char* cimgp_##W##_##H##_##D(const FrameBufferBase* f) { return f->getImage().begin(); }                        \
    unsigned long cimgn_##W##_##H##_##D(const FrameBufferBase* f) { return f->getImage().size(); }                                \
    }
FB(128, 300, 1)
FB(8, 3, 1)
FB(296, 160, 2)
FB(4, 5, 2)
FB(64, 400, 4)
FB(2, 3, 4)
FB(33, 290, 8)
FB(1, 1, 8)
FB(240, 320, 16)
FB(3, 2, 16)
FB(16, 270, 24)
FB(1, 3, 24)
FB(264, 65, 32)
FB(2, 2, 32)
