// C12: cardinality arithmetic against saturating integer arithmetic
#include "common.h"
#include "refract/Cardinal.h"
using namespace refract;
static const uint64_t O = 0xFFFFFFFFull;
static cardinal mk(uint64_t n) { return n == O ? cardinal::open() : cardinal{ (uint32_t)n }; }
static void one(uint64_t a, uint64_t b)
{
    if (a > O || b > O) return;
    std::string d = std::to_string(a) + ", " + std::to_string(b); rp::at(d);
    auto sat = [](unsigned __int128 n) { return n >= O ? O : (uint64_t)n; };
    uint64_t s = (a == O || b == O) ? O : sat((unsigned __int128)a + b);
    uint64_t p = (a == 0 || b == 0) ? 0 : (a == O || b == O) ? O : sat((unsigned __int128)a * b);
    cardinal x = mk(a), y = mk(b);
    if ((x + y).data() != s) rp::fail("add", d + ": sum " + std::to_string((x + y).data()) + ", expected " + std::to_string(s));
    if ((x * y).data() != p) rp::fail("mul", d + ": product " + std::to_string((x * y).data()) + ", expected " + std::to_string(p));
    if ((x == y) != (a == b) || (x != y) != (a != b)) rp::fail("cmp", d);
    if (finite(x) != (a != O)) rp::fail("finite", d);
}
int main()
{
    if (cardinal::open().data() != O || cardinal::empty().data() != 0) rp::fail("const", "open/empty");
    std::vector<uint64_t> e;
    for (int k = 0; k < 33; ++k) for (int d = -2; d <= 2; ++d) { int64_t v = (int64_t(1) << k) + d; if (v >= 0 && v <= (int64_t)O) e.push_back(v); }
    e.push_back(65537); e.push_back(0x55555555); e.push_back(3); e.push_back(5); e.push_back(0x33333333);
    for (auto a : e) for (auto b : e) one(a, b);
    for (long i = 0; i < rp::scale(200000, 20000000); ++i) { uint64_t a = rp::rng()() >> (32 + rp::rnd(32)), b = rp::rng()() >> (32 + rp::rnd(32)); one(a, b); if (a) one(a, O / a + rp::rnd(3) - 1); }
    return rp::done();
}
