// Executable oracle for PersistentStorage: a list of (name, size, value) with the space accounting of the statement.
#include "n_common.h"
#include "PersistentStorage.h"
#include "PersistentStorage.cpp"
#include <memory>
using namespace embedded;
template <int N> struct Obj { unsigned char b[N]; };
struct Entry { std::string key; int size; std::string val; };
struct Model { std::vector<Entry> e; size_t used = 0; };
static std::string pad(std::string k) { while (k.size() < 4) k.push_back('\0'); return k; }
static std::string randkey()
{
    static const char* pool[] = { "a", "ab", "abc", "abcd", "b", "ba", "a1", "key", "\x80\xff", "x", "abcde", "abcdefgh", "abce" };
    if (rnd(3)) return pool[rnd(13)];
    std::string s;
    int n = 1 + rnd(rnd(10) ? 4 : 40);
    for (int i = 0; i < n; ++i) s.push_back(rnd(4) ? 'a' + rnd(2) : 1 + rnd(255));
    return s;
}
template <class T> static bool set_as(PersistentStorage& s, const std::string& k, const std::string& v)
{
    T o;
    memcpy((void*)&o, v.data(), sizeof o);
    return s.set(std::string_view(k.data(), k.size()), o);
}
template <class T> static bool get_as(const PersistentStorage& s, const std::string& k, std::string& v)
{
    auto r = s.get<T>(std::string_view(k.data(), k.size()));
    if (!r) return false;
    v.assign((const char*)&*r, sizeof(T));
    return true;
}
static const int sizes[] = { 1, 2, 4, 7, 16, 300 };
static bool do_set(PersistentStorage& s, const std::string& k, int sz, const std::string& v)
{
    switch (sz)
    {
    case 1: return set_as<char>(s, k, v);
    case 2: return set_as<uint16_t>(s, k, v);
    case 4: return set_as<uint32_t>(s, k, v);
    case 7: return set_as<Obj<7>>(s, k, v);
    case 16: return set_as<Obj<16>>(s, k, v);
    default: return set_as<Obj<300>>(s, k, v);
    }
}
static bool do_get(const PersistentStorage& s, const std::string& k, int sz, std::string& v)
{
    switch (sz)
    {
    case 1: return get_as<char>(s, k, v);
    case 2: return get_as<uint16_t>(s, k, v);
    case 4: return get_as<uint32_t>(s, k, v);
    case 7: return get_as<Obj<7>>(s, k, v);
    case 16: return get_as<Obj<16>>(s, k, v);
    default: return get_as<Obj<300>>(s, k, v);
    }
}
static std::string bytes(int n) { std::string v(n, 0); for (auto& c : v) c = rnd(4) ? rnd(256) : 0; return v; }
static std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o.substr(0, 64); }
static void check_all(const PersistentStorage& s, const Model& m, const char* when)
{
    for (size_t i = 0; i < m.e.size(); ++i)
    {
        auto& e = m.e[i];
        std::string v, k = e.key;
        while (k.size() > 1 && k.back() == 0) k.pop_back();
        if (!do_get(s, k, e.size, v)) fail("%s: entry '%s' of size %d is lost", when, hex(k).c_str(), e.size);
        if (v != e.val) fail("%s: entry '%s' of size %d reads %s, stored %s", when, hex(k).c_str(), e.size, hex(v).c_str(), hex(e.val).c_str());
    }
}
static void step(PersistentStorage& s, Model& m, unsigned char* p, size_t n, bool modelled)
{
    std::string k = randkey(), v;
    int sz = sizes[rnd(n > 700 ? 6 : 5)];
    if (rnd(3) == 0)
    {
        note(" get('%s',%d)", hex(k).c_str(), sz);
        bool r = do_get(s, k, sz, v);
        if (!modelled) return;
        const Entry* f = nullptr;
        if (k.size() <= 4) for (auto& e : m.e) if (e.key == pad(k) && e.size == sz) { f = &e; break; }
        if (r != (f != nullptr)) fail("lookup of '%s' size %d: %d, expected %d", hex(k).c_str(), sz, r, f != nullptr);
        if (f && v != f->val) fail("lookup of '%s' size %d returns other bytes", hex(k).c_str(), sz);
        return;
    }
    v = bytes(sz);
    note(" set('%s',%d)", hex(k).c_str(), sz);
    std::string before((char*)p, n);
    bool r = do_set(s, k, sz, v);
    std::string after((char*)p, n);
    if (!r && before != after) fail("a refused store changed the region");
    if (r)
    {
        std::string w;
        if (!do_get(s, k, sz, w)) fail("stored entry '%s' is not found", hex(k).c_str());
        if (w != v) fail("stored entry '%s' reads back differently", hex(k).c_str());
    }
    if (!modelled) return;
    Entry* f = nullptr;
    if (k.size() <= 4) for (auto& e : m.e) if (e.key == pad(k) && e.size == sz) { f = &e; break; }
    bool want = f || (k.size() <= 4 && m.used + 6 + sz <= n);
    if (r != want) fail("store of '%s' size %d with %zu of %zu bytes used: %d, expected %d", hex(k).c_str(), sz, m.used, n, r, want);
    if (!want) return;
    if (f) f->val = v;
    else { m.e.push_back({ pad(k), sz, v }); m.used += 6 + sz; }
}
static void one(const std::string& prop)
{
    size_t n = rnd(6) == 0 ? rnd(16) : rnd(8) == 0 ? 300 + rnd(4000) : rnd(150);
    if (rnd(400) == 0) n = 30000 + rnd(60000);
    std::unique_ptr<unsigned char[]> mem(new unsigned char[n]);
    unsigned char* p = mem.get();
    note("n=%zu", n);
    if (rnd(3) == 0)
    {
        // arbitrary contents: random bytes, or something that looks like records
        int kind = rnd(3);
        for (size_t i = 0; i < n; ++i) p[i] = kind == 0 ? rnd(256) : kind == 1 ? (rnd(4) ? 0 : rnd(9)) : 0;
        if (kind) for (size_t i = 0; i + 1 < n;)
        {
            size_t s = rnd(12) + (rnd(4) ? 6 : 0);
            if (rnd(6) == 0) s = n - i + rnd(5) - 2;
            p[i] = s; p[i + 1] = s >> 8;
            if (i + 2 < n) p[i + 2] = 'a' + rnd(2);
            if (s == 0 || rnd(8) == 0) break;
            i += s;
        }
        std::string d((char*)p, n);
        note(" arbitrary %s", hex(d).c_str());
        PersistentStorage s(BytesView(p, n), false);
        if (memcmp(p, d.data(), n)) fail("opening changed the region");
        Model m;
        int ops = n > 20000 ? 400 : rnd(12);
        for (int i = 0; i < ops; ++i) step(s, m, p, n, false);
        return;
    }
    for (size_t i = 0; i < n; ++i) p[i] = rnd(256);
    Model m;
    auto s = std::make_unique<PersistentStorage>(BytesView(p, n));
    for (size_t i = 0; i < n; ++i) if (p[i]) fail("byte %zu is not zero after initialisation", i);
    int ops = 1 + rnd(20);
    for (int i = 0; i < ops; ++i)
    {
        step(*s, m, p, n, true);
        if (rnd(4) == 0)
        {
            note(" reopen");
            std::string d((char*)p, n);
            s = std::make_unique<PersistentStorage>(BytesView(p, n), false);
            if (memcmp(p, d.data(), n)) fail("reopening changed the region");
        }
        if (rnd(3) == 0) check_all(*s, m, "after the last operation");
    }
    check_all(*s, m, "at the end");
}
int main(int argc, char** argv) { return search(argc, argv, one); }
