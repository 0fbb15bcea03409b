// C08: RangeSet::append against the list of covered positions
#include "common.h"
#include "ByteBuffer.h"
typedef std::vector<std::pair<size_t, size_t> > L;
static std::string show(const L& l) { std::string s; for (auto& r : l) s += "(" + std::to_string(r.first) + "," + std::to_string(r.second) + ")"; return s; }
static void one(const L& a, const L& b)
{
    rp::at("append " + show(b) + " to " + show(a));
    mdp::BytesRangeSet x, y;
    for (auto& r : a) x.push_back(mdp::BytesRange(r.first, r.second));
    for (auto& r : b) y.push_back(mdp::BytesRange(r.first, r.second));
    L exp = a; bool adj = !a.empty() && !b.empty() && a.back().first + a.back().second == b[0].first;
    if (adj) { exp.back().second += b[0].second; exp.insert(exp.end(), b.begin() + 1, b.end()); } else exp.insert(exp.end(), b.begin(), b.end());
    x.append(y);
    L got; for (auto& r : x) got.push_back({ r.location, r.length });
    L src; for (auto& r : y) src.push_back({ r.location, r.length });
    if (got != exp) rp::fail("append", show(a) + " + " + show(b) + " = " + show(got) + ", expected " + show(exp));
    if (src != b) rp::fail("argument", "append changed its argument " + show(b));
}
int main()
{
    for (long i = 0; i < rp::scale(200000, 3000000); ++i) {
        L a, b; size_t m = rp::rnd(5), w = rp::rnd(2) ? 4 : 1000000000;
        for (size_t k = rp::rnd(m + 1); k; --k) a.push_back({ rp::rnd(w), rp::rnd(w) });
        for (size_t k = rp::rnd(m + 1); k; --k) b.push_back({ rp::rnd(w), rp::rnd(w) });
        if (!a.empty() && !b.empty() && rp::rnd(2)) b[0].first = a.back().first + a.back().second;
        for (size_t k = 1; k < b.size(); ++k) if (rp::rnd(2)) b[k].first = b[k - 1].first + b[k - 1].second;
        one(a, b);
    }
    return rp::done();
}
