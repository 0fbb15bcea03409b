// C04: GetLineFromMap against a direct search
// SOURCES: packages/drafter/src/SourceMapUtils.cc
#include "common.h"
#include "SourceMapUtils.h"
static void one(const std::vector<size_t>& x, size_t loc, size_t len)
{
    std::string d = "GetLineFromMap(" + rp::list(x) + ", " + std::to_string(loc) + ":" + std::to_string(len) + ")";
    rp::at(d);
    drafter::NewLinesIndex ix(x.begin(), x.end());
    auto p = drafter::GetLineFromMap(ix, mdp::Range(loc, len));
    size_t fl = 0, fc = 0, tl = 0, tc = 0, end = loc + len;
    if (!x.empty()) {
        for (size_t k = 1; k < x.size(); ++k) if (x[k - 1] <= loc && loc < x[k]) { fl = k; fc = loc - x[k - 1] + 1; }
        if (end > x.back()) { tl = x.size(); tc = 1; }
        else for (size_t k = 1; k < x.size(); ++k) if (x[k - 1] < end && end <= x[k]) { tl = k; tc = end - x[k - 1]; }
    }
    if (p.fromLine != fl || p.fromColumn != fc || p.toLine != tl || p.toColumn != tc)
        rp::fail("position", d + " = " + std::to_string(p.fromLine) + ":" + std::to_string(p.fromColumn) + "-" + std::to_string(p.toLine) + ":" + std::to_string(p.toColumn) + ", expected " + std::to_string(fl) + ":" + std::to_string(fc) + "-" + std::to_string(tl) + ":" + std::to_string(tc));
}
int main()
{
    one({}, 0, 0); one({}, 5, 3);
    for (long i = 0; i < rp::scale(8000, 200000); ++i) {
        std::vector<size_t> x; size_t v = 0; if (rp::rnd(10)) x.push_back(0);
        size_t w = rp::rnd(8) ? 6 : (size_t(1) << (20 + rp::rnd(42)));
        for (size_t k = rp::rnd(9); k; --k) x.push_back(v += 1 + rp::rnd(w));
        size_t m = (x.empty() ? 4 : x.back() + 6);
        if (m < 60) { for (size_t l = 0; l < m; l += 1 + rp::rnd(3)) for (size_t n = 0; l + n < m + 3; n += 1 + rp::rnd(3)) one(x, l, n); }
        for (int k = 0; k < 12; ++k) { size_t b = x.empty() ? 3 : x[rp::rnd(x.size())]; size_t l = rp::rnd(2) ? b + rp::rnd(3) : rp::rnd(m); one(x, l, rp::rnd(4) ? rp::rnd(m) : rp::rnd(2)); }
        if (i % 50 == 0) { one(x, ~size_t(0), 0); one(x, ~size_t(0), 5); one(x, 3, ~size_t(0)); }
    }
    return rp::done();
}
