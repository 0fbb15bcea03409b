// C07: MapBytesRangeSet against direct concatenation
// SOURCES: packages/apib-parser/src/markdown-parser/ByteBuffer.cc
#include "common.h"
#include "ByteBuffer.h"
static void one(const std::string& t, const std::vector<std::pair<size_t, size_t> >& rs)
{
    std::string d; for (auto& r : rs) d += "(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")";
    d = "map " + d + " onto " + rp::hex(t); rp::at(d);
    mdp::BytesRangeSet s; for (auto& r : rs) s.push_back(mdp::BytesRange(r.first, r.second));
    std::string e; size_t n = t.size();
    if (n) for (auto& r : rs) {
        if (r.first <= n && r.second <= n - r.first) { e += t.substr(r.first, r.second); continue; }
        if (r.first <= n && r.second - (n - r.first) == 1) { e += t.substr(r.first); break; }
        e.clear(); break;
    }
    try { std::string g = mdp::MapBytesRangeSet(s, t); if (g != e) rp::fail("bytes", d + " = " + rp::hex(g) + ", expected " + rp::hex(e)); }
    catch (const std::exception& x) { rp::fail("throws", d + " throws " + x.what()); }
}
int main()
{
    for (long i = 0; i < rp::scale(150000, 3000000); ++i) {
        std::string t = rp::bytes(rp::rnd(12), i % 4); std::vector<std::pair<size_t, size_t> > rs; size_t n = t.size();
        for (size_t k = rp::rnd(4); k; --k) {
            size_t a = rp::rnd(25) ? rp::rnd(n + 1) : rp::rnd(2) ? n + rp::rnd(3) : ~size_t(0) - rp::rnd(3);
            size_t l = rp::rnd(8) ? (a <= n ? rp::rnd(n - a + 1) : 1) : rp::rnd(3) ? (a <= n ? n - a + rp::rnd(3) : rp::rnd(3)) : ~size_t(0) - rp::rnd(12);
            rs.push_back({ a, l });
        }
        one(t, rs);
    }
    return rp::done();
}
