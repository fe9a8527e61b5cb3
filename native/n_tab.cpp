// Native replay search for X02: the real table writers of the font converter into a string stream.
#include "n_common.h"
#include <sstream>
#include <unistd.h>
#define main converter_main
#include "gfx-font-converter/main.cpp"
#undef main
#include "gfx-font-converter/EncodingConverter.cpp"
#include "gfx-font-converter/FontConverterConfig.cpp"
#include "gfx-font-converter/FreeTypeLibrary.cpp"
#include "gfx-font-converter/FreeTypeFace.cpp"
#include "gfx-font-converter/FreeTypeGlyph.cpp"
#include "BufferedOut.cpp"
static std::string strip(const std::string& s)                      // without white space
{
    std::string r;
    for (char c : s) if (c != ' ' && c != '\n' && c != '\t' && c != '\r') r += c;
    return r;
}
static std::string name()
{
    std::string n;
    for (int k = rnd(4) ? 1 + rnd(20) : 200 + rnd(56); k; --k) n += char('A' + rnd(26));
    return n;
}
static void bytes()
{
    std::ostringstream o;
    std::string n = name(), want = "constuint8_t" + n + "Bitmaps[]={";
    int k = rnd(8) ? rnd(60) : rnd(2) ? rnd(3000) : 65536 + rnd(2000);
    note("name of %zu characters, %d bytes", n.size(), k);
    {
        HexStringStream h(o, n);
        for (int i = 0; i < k; ++i)
        {
            uint8_t b = rnd();
            char t[8];
            snprintf(t, sizeof t, "%s0x%02X", i ? "," : "", b);
            want += t;
            h << b;
            if (h.getBytesWritten() != i + 1) fail("%d bytes counted after %d", h.getBytesWritten(), i + 1);
        }
    }
    want += "};";
    std::string got = strip(o.str());
    auto up = [](std::string s) { for (char& c : s) c = toupper(c); return s; };
    if (up(got) != up(want) || got.compare(0, 12 + n.size(), want, 0, 12 + n.size()))
    {
        size_t i = 0;
        while (i < got.size() && i < want.size() && toupper(got[i]) == toupper(want[i])) ++i;
        fail("text differs at character %zu: got ...%.40s, expected ...%.40s", i, got.c_str() + std::min(i, got.size()), want.c_str() + std::min(i, want.size()));
    }
}
static std::string conv(const char* enc, uint8_t c)
{
    iconv_t d = iconv_open("UTF-8", enc);
    char in[1] = {char(c)}, out[8], *p = in, *q = out;
    size_t l = 1, m = sizeof out;
    iconv(d, &p, &l, &q, &m);
    iconv_close(d);
    return std::string(out, q);
}
static void glyphs()
{
    static const char* const E[] = {"ASCII", "ISO-8859-1", "ISO-8859-5", "KOI8-R", "CP1251"};
    std::string enc = E[rnd(5)], n = name();
    int last = enc == "ASCII" ? '~' : 0xFF;
    std::ostringstream o;
    std::vector<GlyphDescriptor> g;
    int big = rnd(2) ? 300 : 65535 / (enc == "ASCII" ? 95 : 191);
    std::vector<int> code;
    for (int c = 0x20; c <= last; c = c == '~' ? 0xA0 : c + 1)
    {
        GlyphDescriptor d {};
        d.bitmapOffset = rnd(4) && big == 300 ? rnd(40) : rnd(big + 1);
        d.size = {uint8_t(rnd()), uint8_t(rnd())};
        d.shift = rnd();
        d.offset = {int8_t(rnd()), int8_t(rnd())};
        g.push_back(d);
        code.push_back(c);
    }
    note("name of %zu characters, encoding %s, %zu glyphs", n.size(), enc.c_str(), g.size());
    {
        TextGlyphStream t(o, n, enc);
        for (auto& d : g) t << d;
    }
    std::istringstream i(o.str());
    std::string l;
    auto next = [&] { while (std::getline(i, l)) if (!strip(l).empty()) return true; return false; };
    if (!next() || strip(l) != "constGFXglyph" + n + "Glyphs[]={") fail("first line is %.100s", l.c_str());
    unsigned long sum = 0;
    for (size_t k = 0; k < g.size(); ++k)
    {
        if (!next()) fail("no line for glyph %zu", k);
        size_t c = l.find("//");
        if (c == std::string::npos) fail("no comment in: %s", l.c_str());
        char w[200], x[40];
        snprintf(w, sizeof w, "{%lu,{%d,%d},%d,{%d,%d}}%s", sum, g[k].size.width, g[k].size.height, g[k].shift,
                 g[k].offset.width, g[k].offset.height, k + 1 < g.size() ? "," : "};");
        if (strip(l.substr(0, c)) != w) fail("glyph %zu (code %02x): got %s, expected %s", k, code[k], l.c_str(), w);
        snprintf(x, sizeof x, "0x%02X", code[k]);
        std::string m = l.substr(c + 2), ch;
        size_t s = m.find(x), q = m.find('\'');
        if (s == std::string::npos) fail("glyph %zu: comment %s does not name code %s", k, m.c_str(), x);
        ch = code[k] <= '~' ? std::string(1, char(code[k])) : conv(enc.c_str(), code[k]);
        if (q == std::string::npos || m.compare(q, ch.size() + 2, "'" + ch + "'") != 0) fail("glyph %zu: comment %s does not show its character", k, m.c_str());
        sum += g[k].bitmapOffset;
    }
    if (next()) fail("text after the last glyph: %.100s", l.c_str());
}
static void one(const std::string&)
{
    rnd(3) ? glyphs() : bytes();
}
int main(int argc, char** argv) { return search(argc, argv, one); }
