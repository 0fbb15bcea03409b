// C05: byte to character ranges: no access outside (sanitizer), one result per range, counts on well-formed text
// SOURCES: packages/apib-parser/src/markdown-parser/ByteBuffer.cc
#include "common.h"
#include "ByteBuffer.h"
static void one(const std::string& text, const std::vector<std::pair<size_t, size_t> >& rs, bool wf)
{
    std::string d; for (auto& r : rs) d += "(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")";
    d = "convert " + d + " of " + rp::hex(text); rp::at(d);
    mdp::ByteBuffer b(text); b.shrink_to_fit(); mdp::BytesRangeSet s; for (auto& r : rs) s.push_back(mdp::BytesRange(r.first, r.second));
    auto g = mdp::BytesRangeSetToCharactersRangeSet(s, b);
    mdp::ByteBufferCharacterIndex ix; mdp::BuildCharacterIndex(ix, b); ix.shrink_to_fit();
    auto h = mdp::BytesRangeSetToCharactersRangeSet(s, ix);
    if (g.size() != rs.size() || h.size() != rs.size()) { rp::fail("count", d); return; }
    if (!wf) return;
    auto bnd = [&](size_t i) { return i == text.size() || (i < text.size() && (text[i] & 0xC0) != 0x80); };
    for (size_t i = 0; i < rs.size(); ++i) {
        size_t lo = std::min(rs[i].first, text.size()), hi = lo + std::min(rs[i].second, text.size() - lo);
        if (!bnd(lo) || !bnd(hi)) continue;
        size_t cl = 0, cn = 0; for (size_t k = 0; k < hi; ++k) if ((text[k] & 0xC0) != 0x80) ++(k < lo ? cl : cn);
        auto chk = [&](const mdp::CharactersRange& r, const char* w) { if (r.location != cl || r.length != cn) rp::fail("chars", d + " (" + w + "), range " + std::to_string(i) + " = " + std::to_string(r.location) + ":" + std::to_string(r.length) + ", expected " + std::to_string(cl) + ":" + std::to_string(cn)); };
        chk(g[i], "buffer"); chk(h[i], "index");
    }
}
int main()
{
    for (long i = 0; i < rp::scale(60000, 1500000); ++i) {
        int mode = i % 3; std::string t = rp::bytes(rp::rnd(20), mode);
        if (mode == 2) { std::string u; for (char c : t) if (c) u += c; t = u; }
        std::vector<std::pair<size_t, size_t> > rs;
        for (size_t k = rp::rnd(4); k; --k) { size_t a = rp::rnd(20) ? rp::rnd(t.size() + 3) : ~size_t(0) - rp::rnd(4); rs.push_back({ a, rp::rnd(20) ? rp::rnd(t.size() + 3) : ~size_t(0) - rp::rnd(9) }); }
        one(t, rs, mode == 2);
    }
    return rp::done();
}
