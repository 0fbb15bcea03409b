// C29: type sizes against an independent computation of the rules
// STUBS
// SOURCES: @REFRACT packages/drafter/src/refract/ElementUtils.cc packages/drafter/src/refract/ElementSize.cc
#include "refract.h"
#include "refract/ElementUtils.h"
#include "refract/ElementSize.h"
using namespace rf;
using N = unsigned long long;
static const N OPEN = 0xFFFFFFFFull;
static N cap(unsigned __int128 n) { return n >= OPEN ? OPEN : N(n); }
static N add(N a, N b) { return a == OPEN || b == OPEN ? OPEN : cap((unsigned __int128)a + b); }
static N mul(N a, N b) { return !a || !b ? 0 : a == OPEN || b == OPEN ? OPEN : cap((unsigned __int128)a * b); }
static const IElement* attr(const IElement& e, const std::string& k) { for (const auto& p : e.attributes()) if (p.first == k) return p.second.get(); return nullptr; }
template <typename T> static const T* as(const IElement* e) { return e && typeid(*e) == typeid(T) ? static_cast<const T*>(e) : nullptr; }
static bool ta(const IElement& e, const std::string& n)
{
    bool r = false;
    if (auto a = as<ArrayElement>(attr(e, "typeAttributes"))) for (const auto& x : a->get()) if (auto s = as<StringElement>(x.get())) r = r || (!s->empty() && s->get().get() == n);
    return r;
}
static bool defines(const IElement& e)
{
    if (!e.empty() || attr(e, "default")) return true;
    auto a = as<ArrayElement>(attr(e, "samples")); return a && !a->empty() && a->get().begin() != a->get().end();
}
static bool variable(const IElement& e) { auto b = as<BooleanElement>(attr(e, "variable")); return b && !b->empty() && b->get().get(); }
static N size(const IElement& e, bool f);
template <typename C> static N prod(const C& c, bool f) { N r = 1; for (const auto& x : c) r = mul(r, size(*x, f)); return r; }
template <typename C> static N sum(const C& c, bool f) { N r = 0; for (const auto& x : c) r = add(r, size(*x, f)); return r; }
static N size(const IElement& e, bool f)
{
    const bool fx = ta(e, "fixed"); auto nul = [&](N n) { return ta(e, "nullable") ? add(n, 1) : n; };
    switch (kindOf(&e)) {
        case 0: return 1;
        case 1: { auto d = e.empty() ? nullptr : static_cast<const HolderElement&>(e).get().data(); return d ? size(*d, f) : 0; }
        case 2: case 3: return nul((f && defines(e)) || fx ? 1 : OPEN);
        case 4: return nul((f && defines(e)) || fx ? 1 : 2);
        case 5: { auto& a = static_cast<const ArrayElement&>(e); if (f || fx) return nul(a.empty() ? 1 : prod(a.get(), true)); return nul(ta(e, "fixedType") && a.empty() ? 0 : OPEN); }
        case 6: { auto v = e.empty() ? nullptr : static_cast<const MemberElement&>(e).get().value(); return v ? nul(mul(variable(e) ? OPEN : 1, size(*v, f))) : 0; }
        case 7: { auto& o = static_cast<const ObjectElement&>(e); if (!(f || fx || ta(e, "fixedType"))) return nul(OPEN); return nul(o.empty() ? 1 : prod(o.get(), f || fx)); }
        case 8: { auto a = as<ArrayElement>(attr(e, "enumerations")); return !a || a->empty() ? 0 : nul(sum(a->get(), f || fx)); }
        case 9: { auto r = attr(e, "resolved"); return r ? size(*r, f) : 0; }
        case 10: { if (e.empty()) return 0; auto m = static_cast<const ExtendElement&>(e).get().merge(); return m ? size(*m, f) : 0; }
        case 11: return e.empty() ? 0 : prod(static_cast<const OptionElement&>(e).get(), f);
        case 12: return e.empty() ? 0 : sum(static_cast<const SelectElement&>(e).get(), f);
    }
    return 77;
}
static GenOpt go;
// attributes that matter, put on after generation
static void deco(IElement* e, int depth)
{
    if (!e) return;
    auto& A = e->attributes();
    if (!rp::rnd(2)) {
        Ptr a = make_element<ArrayElement>(); auto& v = static_cast<ArrayElement*>(a.get())->get(); int n = rp::rnd(4);
        static const char* p[] = { "fixed", "fixedType", "nullable", "required", "fixe", "fixedtype", "Nullable", "fixed", "fixedType", "fixed" };
        while (n--) { if (!rp::rnd(8)) v.push_back(gen(0, go)); else { std::string s = p[rp::rnd(10)]; if (!rp::rnd(12)) s += '\0'; v.push_back(from_primitive(s)); } }
        if (!rp::rnd(12)) a = gen(1, go);
        A.set("typeAttributes", std::move(a));
    }
    if (!rp::rnd(6)) A.set("variable", rp::rnd(4) ? Ptr(from_primitive(rp::rnd(2) == 0)) : gen(0, go));
    if (!rp::rnd(8)) A.set("default", gen(0, go));
    if (!rp::rnd(8)) A.set("samples", gen(1, go, rp::rnd(4) ? 5 : -1));
    int k = kindOf(e);
    if (k == 8 && rp::rnd(5)) { Ptr a = gen(depth > 0 ? 1 : 0, go, rp::rnd(6) ? 5 : -1); if (depth > 0) deco(a.get(), depth - 1); A.set("enumerations", std::move(a)); }
    if (k == 9 && rp::rnd(3)) { Ptr a = gen(depth > 0 ? 1 : 0, go); deco(a.get(), depth - 1); A.set("resolved", std::move(a)); }
    auto seq = [&](auto& c) { for (auto i = c.begin(); i != c.end(); ++i) deco(i->get(), depth - 1); };
    if (e->empty()) return;
    switch (k) {
        case 1: deco(const_cast<IElement*>(static_cast<HolderElement*>(e)->get().data()), depth - 1); break;
        case 5: seq(static_cast<ArrayElement*>(e)->get()); break;
        case 6: deco(const_cast<IElement*>(static_cast<MemberElement*>(e)->get().value()), depth - 1); break;
        case 7: seq(static_cast<ObjectElement*>(e)->get()); break;
        case 10: seq(static_cast<ExtendElement*>(e)->get()); break;
        case 11: seq(static_cast<OptionElement*>(e)->get()); break;
        case 12: seq(static_cast<SelectElement*>(e)->get()); break;
    }
}
// layers of one kind only: what merging accepts
static void one(IElement* e)
{
    if (!e) return;
    for (auto& p : e->attributes()) one(p.second.get());
    if (e->empty()) return;
    auto seq = [&](auto& c) { for (auto i = c.begin(); i != c.end(); ++i) one(i->get()); };
    switch (kindOf(e)) {
        case 1: one(const_cast<IElement*>(static_cast<HolderElement*>(e)->get().data())); break;
        case 5: seq(static_cast<ArrayElement*>(e)->get()); break;
        case 6: { auto& m = static_cast<MemberElement*>(e)->get(); one(const_cast<IElement*>(m.key())); one(const_cast<IElement*>(m.value())); break; }
        case 7: seq(static_cast<ObjectElement*>(e)->get()); break;
        case 8: one(const_cast<IElement*>(static_cast<EnumElement*>(e)->get().value())); break;
        case 10: { auto& c = static_cast<ExtendElement*>(e)->get(); int k = -1; static const int ok[] = { 2, 3, 4, 5, 7, 7, 7, 8 }; k = ok[rp::rnd(8)];
            for (auto i = c.begin(); i != c.end(); ++i) { *i = gen(1, go, k); deco(i->get(), 1); if (k == 8) (*i)->attributes().set("enumerations", gen(1, go, 5)); one(i->get()); } break; }
        case 11: seq(static_cast<OptionElement*>(e)->get()); break;
        case 12: seq(static_cast<SelectElement*>(e)->get()); break;
    }
}
static void check(const IElement& e, const std::string& d)
{
    for (bool f : { false, true }) {
        N w = size(e, f), r = sizeOf(e, f).data();
        if (r != w) rp::fail("size", d + (f ? " (fixed by its parent)" : "") + " has size " + std::to_string(r) + ", expected " + std::to_string(w));
    }
    if (sizeOf(e).data() != size(e, false)) rp::fail("default", d);
}
int main()
{
    go.names = false; go.unset = 4; long kinds[13] = {}, closed = 0, wide = 0;
    for (long i = 0, n = rp::scale(20000, 400000); i < n; ++i) {
        Ptr e = gen(1 + rp::rnd(4), go, rp::rnd(3) ? 5 + rp::rnd(8) : -1); deco(e.get(), 4); if (rp::rnd(2)) setFixedTypeAttribute(*e); one(e.get());
        std::string d = dump(e.get()); rp::at(d); check(*e, d);
        N s = size(*e, true); ++kinds[kindOf(e.get())]; closed += s > 0 && s < OPEN; wide += s > 2 && s < OPEN;
        if (dump(e.get()) != d) rp::fail("changed", d);
    }
    // sums and products that saturate, and just do not
    for (int i = 0, n = rp::scale(400, 4000); i < n; ++i) {
        Ptr s = make_empty<OptionElement>(); auto& o = *static_cast<OptionElement*>(s.get()); o.set(); int k = rp::rnd(40); for (int j = 0; j < k; ++j) o.get().push_back(make_empty<BooleanElement>());
        Ptr t = make_empty<SelectElement>(); auto& x = *static_cast<SelectElement*>(t.get()); x.set(); int m = 1 + rp::rnd(4); for (int j = 0; j < m; ++j) { Ptr c = s->clone(); x.get().push_back(std::unique_ptr<OptionElement>(static_cast<OptionElement*>(c.release()))); }
        std::string d = std::to_string(m) + " options of " + std::to_string(k) + " booleans"; rp::at(d); check(*s, d); check(*t, d);
    }
    for (int k = 0; k < 13; ++k) if (!kinds[k]) rp::fail("coverage", "kind " + std::to_string(k));
    if (!closed || !wide) rp::fail("coverage", "no finite type");
    return rp::done();
}
