// C03: GetLinesEndIndex against an independent character count (characters as the decoder delivers them)
// SOURCES: packages/drafter/src/SourceMapUtils.cc
#include "common.h"
#include "SourceMapUtils.h"
#include "utils/Utf8.h"
static void one(const std::string& s)
{
    rp::at("GetLinesEndIndex(" + rp::hex(s) + ")");
    std::vector<size_t> e{ 0 }; size_t n = 0;
    for (const char *p = s.data(), *l = p + s.size(); p != l;) { auto r = drafter::utils::utf8::decode_one<const char*>(p, l); ++n; if (r.first == 10) e.push_back(n); p = r.second; }
    auto g = drafter::GetLinesEndIndex(s);
    if (std::vector<size_t>(g.begin(), g.end()) != e) rp::fail("index", "GetLinesEndIndex(" + rp::hex(s) + ") = " + rp::list(g) + ", expected " + rp::list(e));
}
int main()
{
    one("");
    std::string big; for (int i = 0; i < 70000; ++i) big += i % 7 ? "\xC3\xA9" : "\n"; one(big);
    for (long i = 0; i < rp::scale(60000, 2000000); ++i) one(rp::bytes(rp::rnd(i % 50 ? 24 : 400), i % 4));
    return rp::done();
}
