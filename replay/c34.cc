// C34: traversal and filtering against an independent walk (elements compared by address)
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Iterate.h"
#include "refract/FilterVisitor.h"
#include "refract/Query.h"
using namespace rf;
using L = std::vector<const IElement*>;
template <typename C> static void each(const C& c, const std::function<void(const IElement*)>& f) { for (auto i = c.begin(); i != c.end(); ++i) f(i->get()); }
static void kids(const IElement* e, bool pairs, const std::function<void(const IElement*)>& f)
{
    switch (kindOf(e)) {
        case 5: each(static_cast<const ArrayElement*>(e)->get(), f); break;
        case 6: if (pairs) { f(static_cast<const MemberElement*>(e)->get().key()); f(static_cast<const MemberElement*>(e)->get().value()); } break;
        case 7: each(static_cast<const ObjectElement*>(e)->get(), f); break;
        case 10: each(static_cast<const ExtendElement*>(e)->get(), f); break;
        case 11: each(static_cast<const OptionElement*>(e)->get(), f); break;
        case 12: each(static_cast<const SelectElement*>(e)->get(), f); break;
    }
}
static void walk(const IElement* e, L& out)
{
    if (!e) return;
    out.push_back(e);
    if (!e->empty()) kids(e, true, [&](const IElement* c) { walk(c, out); });
}
static void poke(IElement* e); // absent entries, made after generation (copying them is not supported)
template <typename C> static void pokeseq(C& c) { for (auto i = c.begin(); i != c.end(); ++i) { if (!rp::rnd(5)) i->reset(); else poke(i->get()); } }
static void poke(IElement* e)
{
    if (!e) return;
    switch (kindOf(e)) {
        case 5: pokeseq(static_cast<ArrayElement*>(e)->get()); break;
        case 6: { auto& m = static_cast<MemberElement*>(e)->get(); poke(const_cast<IElement*>(m.key())); poke(const_cast<IElement*>(m.value())); break; }
        case 7: pokeseq(static_cast<ObjectElement*>(e)->get()); break;
        case 10: pokeseq(static_cast<ExtendElement*>(e)->get()); break;
        case 11: pokeseq(static_cast<OptionElement*>(e)->get()); break;
        case 12: pokeseq(static_cast<SelectElement*>(e)->get()); break;
    }
}
struct Rec {
    L seen; bool wrongkind = false;
    void operator()(const IElement& e) { wrongkind = true; seen.push_back(&e); }
    template <typename T> void operator()(const T& e) { seen.push_back(&e); }
};
static std::string show(const L& l) { std::string s = "["; for (auto e : l) s += dump(e) + ","; return s + "]"; }
int main()
{
    GenOpt go; long deep = 0;
    for (long i = 0, n = rp::scale(15000, 300000); i < n; ++i) {
        Ptr e = gen(1 + rp::rnd(5), go, rp::rnd(4) ? 5 + rp::rnd(8) : -1); if (rp::rnd(2)) poke(e.get()); std::string d = dump(e.get()); rp::at(d);
        L all, direct; walk(e.get(), all); kids(e.get(), false, [&](const IElement* c) { if (c) direct.push_back(c); });
        deep += all.size() > 6;
        { Rec r; Iterate<Recursive> it(r); it(*e); if (r.seen != all) rp::fail("recursive", d + ": visited " + show(r.seen)); if (r.wrongkind) rp::fail("kind", d);
          it(*e); L two(all); two.insert(two.end(), all.begin(), all.end()); if (r.seen != two) rp::fail("again", d); }
        { Rec r; Iterate<Children> it(r); it(*e); if (r.seen != direct) rp::fail("children", d + ": visited " + show(r.seen));
          it(*e); L two(direct); two.insert(two.end(), direct.begin(), direct.end()); if (r.seen != two) rp::fail("again", d); }
        int how = rp::rnd(4); std::string nm = all.empty() ? "A" : all[rp::rnd(all.size())]->element(); if (!rp::rnd(5)) nm += '\0';
        auto pred = [how, nm](const IElement& x) { return how == 0 ? true : how == 1 ? kindOf(&x) % 2 == 0 : how == 2 ? !x.empty() : x.element() == nm; };
        L wa, wc; for (auto x : all) if (pred(*x)) wa.push_back(x); for (auto x : direct) if (pred(*x)) wc.push_back(x);
        auto run = [&](FilterVisitor&& f, const L& want, bool rec) {
            if (!f.empty()) rp::fail("fresh", d);
            if (rec) { Iterate<Recursive> it(f); it(*e); } else { Iterate<Children> it(f); it(*e); }
            if (f.elements() != want || f.empty() != want.empty()) rp::fail("filter", d + ": selected " + show(f.elements()) + (how == 3 ? " by name " + rp::hex(nm) : ""));
        };
        if (how == 3) { run(FilterVisitor(query::Element(nm)), wa, true); run(FilterVisitor(query::Element(nm)), wc, false); }
        else { run(FilterVisitor(pred), wa, true); run(FilterVisitor(pred), wc, false); }
        if (dump(e.get()) != d) rp::fail("changed", d);
    }
    if (!deep) rp::fail("coverage", "no deep element generated");
    return rp::done();
}
