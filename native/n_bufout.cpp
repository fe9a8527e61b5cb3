// Executable oracle for BufferedOut (B01..B06): random operation histories against a reference model.
#include "n_common.h"
#include <algorithm>
#include <cmath>
#include "BufferedOut.cpp"
using namespace embedded;

struct Model
{
    std::string s;
    size_t cap;
    int w = 0, p = 0;
    char f = ' ';
    size_t room() const { return cap - s.size(); }
    void text(const std::string& t) { s += t.substr(0, std::min(t.size(), room())); }
    bool integer(const std::string& t)
    {
        std::string r = t;
        if (w > 0 && (size_t)w > room()) return false;
        if ((long)t.size() < (long)w) r = std::string(w - t.size(), f) + t;
        if (r.size() <= room() && (w <= 0 || (size_t)w <= room())) { s += r; w = 0; return true; }
        return false;
    }
};
static std::string flt(float v, int p, size_t room)
{
    if (!(std::fabs(v) < 2147483648.0f)) return "";
    int n = int(v);
    std::string h;
    if (v < 0 && n == 0 && p > 0) h = "-";
    h += std::to_string(n);
    if (h.size() > room) return "";
    if (p <= 0 || h.size() == room) return h;
    h += '.';
    float f = std::fabs(v) - std::fabs(float(n));
    for (int i = 0; i < p && h.size() < room; ++i)
    {
        f *= 10;
        int d = int(f);
        h += char('0' + d);
        f -= float(d);
    }
    return h;
}
static void run(const std::string& prop)
{
    size_t cap = rnd(40) == 0 ? 65530 + rnd(20) : rnd(10) == 0 ? rnd(1500) : rnd(5) == 0 ? rnd(80) : rnd(24);
    char* raw = (char*)malloc(cap ? cap : 1);
    memset(raw, '#', cap);
    static std::vector<char> shadow;
    Model m;
    m.cap = cap;
    note("cap=%zu", cap);
    BufferedOut o(MemoryView<char>(raw, cap));
    bool unsure = false;
    int n = 1 + rnd(10);
    for (int i = 0; i < n; ++i)
    {
        uint64_t x = interesting();
        int op = rnd(18);
        if (cap > 1000 && rnd(3) == 0) op = 9;
        std::string d;
        if (unsure && op < 6) op = 15;     // a refused integer leaves the width open: set it again
        switch (op)
        {
        case 0: note(" int(%d)", (int)x); o << (int)x; if (!m.integer(std::to_string((int)x))) unsure = true; break;
        case 1: note(" unsigned(%u)", (unsigned)x); o << (unsigned)x; if (!m.integer(std::to_string((unsigned)x))) unsure = true; break;
        case 2: note(" long(%ld)", (long)x); o << (long)x; if (!m.integer(std::to_string((long)x))) unsure = true; break;
        case 3: note(" ulong(%lu)", (unsigned long)x); o << (unsigned long)x; if (!m.integer(std::to_string((unsigned long)x))) unsure = true; break;
        case 4: note(" ll(%lld)", (long long)x); o << (long long)x; if (!m.integer(std::to_string((long long)x))) unsure = true; break;
        case 5: note(" ull(%llu)", (unsigned long long)x); o << (unsigned long long)x; if (!m.integer(std::to_string((unsigned long long)x))) unsure = true; break;
        case 6: { float f; uint32_t u = x; if (rnd(3) == 0) f = (float)(int64_t)rnd(2000000) / 1000.0f - 1000.0f; else if (rnd(3) == 0) f = (float)rnd(1000) / 997.0f * (rnd(2) ? 1 : -1); else if (rnd(3) == 0) { f = (float)rnd(5000) / (float)(rnd(2) ? 10 : 1000); for (int q = rnd(4); q > 0; --q) f = nextafterf(f, rnd(2) ? 0 : 1e9f); } else memcpy(&f, &u, 4);
            note(" float(%a)", f); o << f; m.s += flt(f, m.p, m.room()); break; }
        case 7: note(" byte(%u)", (unsigned)(x & 255)); o << (unsigned char)x; if (m.room() >= 2) { char h[4]; snprintf(h, 4, "%02X", (unsigned)(x & 255)); m.s += h; } break;
        case 8: { std::vector<unsigned char> b(cap > 300 && rnd(2) ? rnd(700) : rnd(2) ? rnd(20) : rnd(6)); for (auto& c : b) c = rnd(); note(" bytes[%zu]", b.size());
            o << ConstBytesView(b.data(), b.size()); for (auto c : b) if (m.room() >= 2) { char h[4]; snprintf(h, 4, "%02X", c); m.s += h; } break; }
        case 9: case 10: { std::string t; size_t l = cap > 1000 ? rnd(66000) : rnd(12); for (size_t k = 0; k < l; ++k) t += char(op == 9 ? rnd(256) : 1 + rnd(255));
            if (op == 9) { note(" sv[%zu]", l); char* q = (char*)malloc(l ? l : 1); memcpy(q, t.data(), l); o << std::string_view(q, l); free(q); }
            else { note(" str[%zu]", l); char* q = (char*)malloc(l + 1); memcpy(q, t.c_str(), l + 1); o << (const char*)q; free(q); }
            m.text(t); break; }
        case 11: note(" char(%d)", (int)(x & 127)); o << (char)(x & 127); m.text(std::string(1, (char)(x & 127))); break;
        case 12: note(" addChar(%d)", (int)(x & 255)); o.addChar((char)x); m.text(std::string(1, (char)x)); break;
        case 13: { int p = (int)rnd(12); note(" precision(%d)", p); o << BufferedOut::precision { p }; m.p = p; break; }
        case 14: case 15: { int w = rnd(8) == 0 ? (int)x : (int)rnd(cap < 30 ? cap + 3 : 30); note(" width(%d)", w); o << BufferedOut::width { w }; m.w = w; unsure = false; break; }
        case 16: { char f = (char)(33 + rnd(90)); note(" fill(%c)", f); o << BufferedOut::fill { f }; m.f = f; break; }
        default: note(" clear"); o.clear(); m.s.clear(); m.w = 0; m.p = 0; m.f = ' '; unsure = false; break;
        }
        if (o.size() != m.s.size()) fail("size %zu, expected %zu", (size_t)o.size(), m.s.size());
        if (o.capacity() != cap) fail("capacity %zu", (size_t)o.capacity());
        auto sv = o.asStringView();
        const BufferedOut& co = o;
        if (sv.data() != raw || sv.size() != m.s.size() || o.data().begin() != (unsigned char*)raw || o.data().size() != m.s.size() ||
            co.data().begin() != (unsigned char*)raw || co.data().size() != m.s.size() || static_cast<uint8_t*>(o) != (uint8_t*)raw ||
            static_cast<const uint8_t*>(co) != (uint8_t*)raw)
            fail("views disagree");
        if (m.s.size() && memcmp(raw, m.s.data(), m.s.size()) != 0)
        {
            size_t k = 0;
            while (raw[k] == m.s[k]) ++k;
            fail("content differs at %zu: \"%.40s\" expected \"%.40s\"", k, std::string(raw, m.s.size()).c_str(), m.s.c_str());
        }
    }
    free(raw);
}
int main(int c, char** v) { return search(c, v, run); }
