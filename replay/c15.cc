// C15: equality of element pairs against equality of their structural dumps without names
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Utils.h"
using namespace rf;
static void pair(const IElement& a, const IElement& b)
{
    std::string x = dump(&a), y = dump(&b); bool want = x == y;
    std::string d = x + " and " + y; rp::at(d);
    if ((a == b) != want) rp::fail("eq", d + (want ? " compare different" : " compare equal"));
    if ((b == a) != want) rp::fail("eq-sym", d + (want ? " compare different" : " compare equal"));
    if ((a != b) == want) rp::fail("ne", d);
    if (!(a == a)) rp::fail("refl", d);
    if ((a.meta() == b.meta()) != (dumpie(a.meta()) == dumpie(b.meta())) || (a.meta() != b.meta()) == (dumpie(a.meta()) == dumpie(b.meta()))) rp::fail("meta", d);
}
int main()
{
    withNames() = false;
    GenOpt go;
    std::vector<Ptr> v;
    for (int k = 0; k < 13; ++k) { GenOpt s; s.info = 0; s.unset = 0; s.names = false; v.push_back(gen(0, s, k)); s.unset = 1; v.push_back(gen(0, s, k)); v.push_back(gen(1, go, k)); }
    { auto e = make_empty<EnumElement>(); e->set(); v.push_back(std::move(e)); auto h = make_empty<HolderElement>(); h->set(); v.push_back(std::move(h)); auto m = make_empty<MemberElement>(); m->set(); v.push_back(std::move(m)); }
    for (auto& a : v) for (auto& b : v) pair(*a, *b);
    for (long i = 0, n = rp::scale(2500, 60000); i < n; ++i) {
        auto seed = rp::rng()(); int k = i % 13; long at = rp::rnd(8); int how = rp::rnd(12);
        rp::rng().seed(seed); auto a = gen(3, go, k);
        rp::rng().seed(seed); mutateAt() = at; mutateHow() = how; auto b = gen(3, go, k); mutateAt() = -1;
        rp::rng().seed(seed + 1);
        pair(*a, *b); pair(*a, *a->clone()); auto c = gen(3, go); pair(*b, *c);
    }
    return rp::done();
}
