// Native replay search for T01: the real BitStream against a list of bits.
#include "n_common.h"
#include <iosfwd>
#include "gfx-font-converter/BitStream.h"
struct Out
{
    std::vector<uint8_t> v;
    Out& operator<<(uint8_t b) { v.push_back(b); return *this; }
};
static void one(const std::string&)
{
    Out out;
    BitStream<Out> s(out);
    std::vector<bool> all;
    auto want = [&] {
        if (out.v.size() != all.size() / 8) fail("%zu bytes emitted for %zu bits", out.v.size(), all.size());
        for (size_t i = 0; i < out.v.size() * 8; ++i)
            if (((out.v[i / 8] >> (7 - i % 8)) & 1) != all[i]) fail("bit %zu differs", i);
    };
    for (int n = rnd(24); n; --n)
    {
        if (uint64_t k = rnd(8); k < 5)
        {
            bool b = rnd(2);
            note(" bit %d", b);
            s << b;
            all.push_back(b);
        }
        else if (k < 7)
        {
            uint8_t b = rnd();
            note(" byte %d", b);
            s << b;
            for (int i = 7; i >= 0; --i) all.push_back((b >> i) & 1);
        }
        else
        {
            note(" flush");
            s.flush();
            while (all.size() % 8) all.push_back(false);
        }
        want();
    }
}
int main(int argc, char** argv) { return search(argc, argv, one); }
