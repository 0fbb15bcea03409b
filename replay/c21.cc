// C21: expandability against an independent recursive check
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/Visitor.h"
using namespace rf;
static bool base(const std::string& n) { static const char* b[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" }; for (auto x : b) if (n == x) return true; return false; }
static bool ex(const IElement* e);
template <typename C> static bool any(const C& c) { bool r = false; for (const auto& p : c) r = ex(p.get()) || r; return r; }
static bool ex(const IElement* e)
{
    if (!e) return false;
    int k = kindOf(e);
    if (k == 9 || !base(e->element())) return true;
    if (k == 8) for (const auto& p : e->attributes()) if (p.first == "enumerations") return ex(p.second.get()) || (!e->empty() && ex(static_cast<const EnumElement*>(e)->get().value()));
    if (e->empty()) return false;
    switch (k) {
        case 5: return any(static_cast<const ArrayElement*>(e)->get());
        case 6: { auto& m = static_cast<const MemberElement*>(e)->get(); return ex(m.key()) || ex(m.value()); }
        case 7: return any(static_cast<const ObjectElement*>(e)->get());
        case 8: return ex(static_cast<const EnumElement*>(e)->get().value());
        case 10: return any(static_cast<const ExtendElement*>(e)->get());
        case 11: return any(static_cast<const OptionElement*>(e)->get());
        case 12: return any(static_cast<const SelectElement*>(e)->get());
    }
    return false;
}
static void rename(IElement& e) // most elements keep a base name, so that deep parts decide
{
    static const char* b[] = { "string", "object", "generic", "array", "enum", "null" };
    if (!rp::rnd(30)) { static const std::string o[] = { "A", "", "strin", "strings", "String", std::string("string\0", 7), std::string("array\0x", 7), std::string("\0", 1), "zz" }; e.element(o[rp::rnd(9)]); return; }
    if (!base(e.element())) e.element(b[rp::rnd(6)]);
}
static void walk(const IElement* c)
{
    IElement* e = const_cast<IElement*>(c); if (!e) return; rename(*e);
    for (auto& p : e->attributes()) walk(p.second.get());
    if (e->empty()) return;
    switch (kindOf(e)) {
        case 1: walk(static_cast<HolderElement*>(e)->get().data()); break;
        case 5: for (auto& p : static_cast<ArrayElement*>(e)->get()) walk(p.get()); break;
        case 6: walk(static_cast<MemberElement*>(e)->get().key()); walk(static_cast<MemberElement*>(e)->get().value()); break;
        case 7: for (auto& p : static_cast<ObjectElement*>(e)->get()) walk(p.get()); break;
        case 8: walk(static_cast<EnumElement*>(e)->get().value()); break;
        case 10: for (auto& p : static_cast<ExtendElement*>(e)->get()) walk(p.get()); break;
        case 11: for (auto& p : static_cast<OptionElement*>(e)->get()) walk(p.get()); break;
        case 12: for (auto& p : static_cast<SelectElement*>(e)->get()) walk(p.get()); break;
    }
}
int main()
{
    GenOpt go; go.info = 3; long yes = 0;
    for (long i = 0, n = rp::scale(20000, 400000); i < n; ++i) {
        Ptr e = gen(1 + rp::rnd(4), go, rp::rnd(3) ? -1 : 5 + rp::rnd(8)); if (kindOf(e.get()) == 8 && rp::rnd(2)) e->attributes().set("enumerations", gen(2, go, 5));
        if (rp::rnd(4)) walk(e.get());
        if (rp::rnd(2) && kindOf(e.get()) == 9) continue;
        std::string d = dump(e.get()); rp::at(d);
        IsExpandableVisitor v; VisitBy(*e, v); yes += v.get();
        if (v.get() != ex(e.get())) rp::fail("expandable", d + (v.get() ? ": reported expandable" : ": reported not expandable"));
        IsExpandableVisitor w; w(static_cast<const IElement&>(*e)); if (w.get() != v.get()) rp::fail("by-base", d);
        if (dump(e.get()) != d) rp::fail("changed", d);
    }
    if (!yes) rp::fail("coverage", "no expandable element generated");
    return rp::done();
}
