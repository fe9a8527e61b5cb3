// Native replay search for T02: the real EncodingConverter over the real iconv.
#include "n_common.h"
#include <algorithm>
#include <cerrno>
#include <stdexcept>
#include "gfx-font-converter/EncodingConverter.cpp"
static std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) s += char(0xC0 | c >> 6), s += char(0x80 | (c & 63));
    else if (c < 0x10000) s += char(0xE0 | c >> 12), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
    else s += char(0xF0 | c >> 18), s += char(0x80 | ((c >> 12) & 63)), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
    return s;
}
static void other()                             // other encodings, whose second bytes may look like ASCII
{
    static const char* const E[] = {"SHIFT_JIS", "GBK", "BIG5", "EUC-JP", "KOI8-R", "ISO-8859-1", "UTF-16BE"};
    const char* enc = E[rnd(7)];
    iconv_t d = iconv_open(enc, "UCS-4LE");
    if (d == iconv_t(-1)) return;
    EncodingConverter c(enc, "UCS-4LE");
    note("%s to UCS-4LE:", enc);
    for (int n = 1 + rnd(6); n; --n)
    {
        uint32_t cp = rnd(3) ? 0x3040 + rnd(0x60) : rnd(2) ? 0x4E00 + rnd(0x2000) : 0x20 + rnd(0x450);
        char in[4], out[8];
        for (int i = 0; i < 4; ++i) in[i] = char(cp >> 8 * i);
        char *p = in, *q = out;
        size_t l = 4, m = sizeof out;
        if (iconv(d, &p, &l, &q, &m) != 0) continue;
        size_t k = sizeof out - m;
        iconv_t b = iconv_open("UCS-4LE", enc);         // what its bytes mean
        uint32_t w = 0;
        char *r = out, *t = (char*)&w;
        size_t rl = k, tl = 4;
        bool ok = iconv(b, &r, &rl, &t, &tl) == 0 && !rl && !tl;
        iconv_close(b);
        if (!ok) continue;
        for (size_t i = 0; i < k; ++i)
        {
            note(" %02x", uint8_t(out[i]));
            uint32_t v = 0;
            if (rnd(2)) v = c.convertRaw(out[i]);
            else { std::string x = c.convert(out[i]); memcpy(&v, x.data(), std::min<size_t>(4, x.size())); }
            if (v != (i + 1 < k ? 0 : w)) fail("returned value %08x, expected %08x", v, i + 1 < k ? 0 : w);
        }
    }
    iconv_close(d);
}
static void one(const std::string&)
{
    if (rnd(8) == 0) return other();
    bool same = rnd(2);
    EncodingConverter c("UTF-8", same ? "UTF-8" : "UCS-4LE");
    note("UTF-8 to %s:", same ? "UTF-8" : "UCS-4LE");
    for (int n = rnd(6); n; --n)
    {
        uint32_t cp;
        switch (rnd(5))
        {
        case 0: cp = 1 + rnd(0x7F); break;
        case 1: cp = 0x80 + rnd(0x780); break;
        case 2: cp = 0x800 + rnd(0xC000); break;
        case 3: cp = 0x10000 + rnd(0x100000); break;
        default: cp = 0;
        }
        std::string s = cp ? utf8(cp) : std::string("\xFF");
        if (!cp && rnd(2)) s = utf8(0x800 + rnd(0xC000)).substr(0, 1 + rnd(2)) + "\xFF";
        std::string want = !cp ? "" : same ? s : std::string({ char(cp), char(cp >> 8), char(cp >> 16), char(cp >> 24) });
        for (size_t i = 0; i < s.size(); ++i)
        {
            bool last = i + 1 == s.size();
            note(" %02x", uint8_t(s[i]));
            if (rnd(2))
            {
                std::string r = c.convert(s[i]);
                if (r != (last ? want : "")) fail("returned %zu bytes, %zu expected (or other contents)", r.size(), last ? want.size() : 0);
            }
            else
            {
                uint32_t r = c.convertRaw(s[i]), w = 0;
                if (last) memcpy(&w, want.data(), want.size());
                if (r != w) fail("returned value %08x, expected %08x", r, w);
            }
        }
    }
}
int main(int argc, char** argv) { return search(argc, argv, one); }
