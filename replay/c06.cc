// C06: BuildCharacterIndex: in bounds, one entry per byte, entries are character ordinals
// SOURCES: packages/apib-parser/src/markdown-parser/ByteBuffer.cc
#include "common.h"
#include "ByteBuffer.h"
static void one(const std::string& t)
{
    std::string d = "BuildCharacterIndex(" + rp::hex(t) + ")"; rp::at(d);
    mdp::ByteBuffer b(t); mdp::ByteBufferCharacterIndex ix; if (rp::rnd(3) == 0) ix.assign(rp::rnd(9), 77);
    mdp::BuildCharacterIndex(ix, b);
    if (ix.size() != t.size()) { rp::fail("size", d + " has " + std::to_string(ix.size()) + " entries"); return; }
    size_t i = 0, c = 0;
    while (i < t.size() && t[i]) {
        unsigned char x = t[i]; size_t n = x < 0xC0 ? 1 : x < 0xE0 ? 2 : x < 0xF0 ? 3 : 4;
        for (size_t k = i; k < i + n && k < t.size(); ++k) if (ix[k] != c) { rp::fail("entry", d + "[" + std::to_string(k) + "] = " + std::to_string(ix[k]) + ", expected " + std::to_string(c)); return; }
        i += n; ++c;
    }
}
int main()
{
    one("");
    for (int a = 0; a < 256; ++a) for (int n = 0; n < 5; ++n) { one(std::string(1, char(a)) + std::string(n, '\x80')); one("x" + std::string(1, char(a)) + std::string(n, 'y')); }
    for (long i = 0; i < rp::scale(80000, 2000000); ++i) one(rp::bytes(rp::rnd(i % 40 ? 16 : 300), i % 4));
    return rp::done();
}
