// C23: lookup helpers against an independent scan of the element, with identity of the returned elements
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/VisitorUtils.h"
#include <typeinfo>
using namespace rf;
static GenOpt go;
static const IElement* at(const InfoElements& m, const char* k) { for (const auto& p : m) if (p.first == k) return p.second.get(); return nullptr; }
template <typename T> static const T* ty(const IElement* e) { return e && typeid(*e) == typeid(T) ? static_cast<const T*>(e) : nullptr; }
template <typename T> static std::vector<const IElement*> kids(const T* a) { std::vector<const IElement*> r; if (a) for (const auto& p : a->get()) r.push_back(p.get()); return r; }
static bool hasTA(const IElement& e, const std::string& v) { for (auto c : kids(ty<ArrayElement>(at(e.attributes(), "typeAttributes")))) if (auto s = ty<StringElement>(c)) if (s->get().get() == v) return true; return false; }
static bool isVar(const IElement& e) { auto b = ty<BooleanElement>(at(e.attributes(), "variable")); return b && b->get().get(); }
template <typename T> static const T* sample(const IElement& e) { auto k = kids(ty<ArrayElement>(at(e.attributes(), "samples"))); return k.empty() ? nullptr : ty<T>(k[0]); }
template <typename T> static const T* dflt(const IElement& e) { return ty<T>(at(e.attributes(), "default")); }
template <typename T> static const IElement* eff(const T& e) { if (!e.empty()) return &e; if (auto s = sample<T>(e)) return s; if (auto d = dflt<T>(e)) return d; return hasTA(e, "nullable") ? nullptr : &e; }
static const IElement* eff(const EnumElement& e)
{
    if (auto s = sample<EnumElement>(e)) return eff(*s);
    if (auto d = dflt<EnumElement>(e)) return eff(*d);
    if (!e.empty() && e.get().value()) return e.get().value();
    auto a = ty<ArrayElement>(at(e.attributes(), "enumerations"));
    if (a && !a->empty()) for (auto c : kids(a)) { if (auto n = ty<EnumElement>(c)) if (auto v = eff(*n)) return v; if (!c->empty()) return c; }
    return nullptr;
}
static bool cmpval(const IElement* e, const std::string& w) { if (auto s = ty<StringElement>(e)) return s->get().get() == w; if (auto m = ty<MemberElement>(e)) return cmpval(m->get().value(), w); return false; }
static const IElement* byKey(const ObjectElement& o, const std::string& w) { for (auto c : kids(&o)) if (auto m = ty<MemberElement>(c)) if (cmpval(m->get().key(), w)) return m; return nullptr; }
static std::string keyStr(const MemberElement& m, bool& thrown)
{
    const IElement* k = m.get().key(); thrown = false;
    if (!k || k->empty()) return "";
    if (auto s = ty<StringElement>(k)) return s->get().get();
    if (auto x = ty<ExtendElement>(k)) { std::unique_ptr<IElement> g; try { g = x->get().merge(); } catch (...) { thrown = true; return ""; }
        if (auto s = ty<StringElement>(g.get())) { if (!s->empty() && !s->get().get().empty()) return s->get().get(); auto v = ty<StringElement>(eff(*s)); return v && !v->empty() ? v->get().get() : ""; } }
    return "";
}
static void eqp(const char* what, const void* h, const void* w, const std::string& d) { if (h != w) rp::fail(what, d + (h ? w ? ": another element" : ": an element instead of nothing" : ": nothing instead of an element")); }
static void deco(IElement& e, int kind, int depth)
{
    auto same = [&](int n) { auto a = make_empty<ArrayElement>(); if (rp::rnd(8)) { a->set(); while (n--) { Ptr p = gen(depth, go, rp::rnd(6) ? kind : -1); if (depth > 0 && rp::rnd(2)) deco(*p, kindOf(p.get()), depth - 1); a->get().push_back(std::move(p)); } } return a; };
    if (!rp::rnd(3)) e.attributes().set("samples", rp::rnd(8) ? Ptr(same(rp::rnd(3))) : gen(1, go));
    if (!rp::rnd(3)) { Ptr p = gen(1, go, rp::rnd(4) ? kind : -1); if (depth > 0) deco(*p, kindOf(p.get()), depth - 1); e.attributes().set("default", std::move(p)); }
    if (!rp::rnd(3)) e.attributes().set("enumerations", rp::rnd(8) ? Ptr(same(rp::rnd(4))) : gen(1, go));
    if (!rp::rnd(2)) { auto a = make_empty<ArrayElement>(); static const char* t[] = { "nullable", "fixed", "required", "", "x" }; if (rp::rnd(6)) { a->set(); for (int n = rp::rnd(4); n--;) if (rp::rnd(5)) a->get().push_back(from_primitive(std::string(t[rp::rnd(5)]))); else a->get().push_back(gen(0, go)); } e.attributes().set("typeAttributes", rp::rnd(8) ? Ptr(std::move(a)) : gen(1, go)); }
    if (!rp::rnd(4)) e.attributes().set("variable", rp::rnd(4) ? Ptr(from_primitive(rp::rnd(2) == 0)) : gen(0, go));
    if (!rp::rnd(4)) e.meta().set("description", gen(0, go, rp::rnd(3) ? 2 : -1));
}
template <typename T> static void typed(const T& e, const std::string& d)
{
    static const char* t[] = { "nullable", "fixed", "required", "", "x" };
    for (auto a : t) if (HasTypeAttribute(e, a) != hasTA(e, a) || HasTypeAttribute(static_cast<const IElement&>(e), a) != hasTA(e, a)) rp::fail("HasTypeAttribute", d + " " + a);
    if (IsVariableProperty(e) != isVar(e)) rp::fail("IsVariableProperty", d);
    eqp("GetDefault", GetDefault(e), dflt<T>(e), d);
    eqp("GetSample", GetSample(e), sample<T>(e), d);
    eqp("GetValue", static_cast<const IElement*>(GetValue<T>()(e)), eff(e), d);
    for (auto k : { "samples", "default", "variable", "zz" }) eqp("FindCollectionMemberValue", FindCollectionMemberValue<const T>(e.attributes(), k), ty<T>(at(e.attributes(), k)), d);
    eqp("GetDescription", GetDescription(e), ty<StringElement>(at(e.meta(), "description")), d);
    int k = kindOf(&e); bool lit = k != 0 && ((!e.empty() && k >= 2 && k <= 4) || hasTA(e, "fixed"));
    if (IsLiteral(e) != lit) rp::fail("IsLiteral", d);
}
int main()
{
    go.dupkeys = true;
    for (long i = 0, n = rp::scale(20000, 400000); i < n; ++i) {
        int kind = rp::rnd(13); if (rp::rnd(3) == 0) kind = 8; if (rp::rnd(5) == 0) kind = 6; if (rp::rnd(5) == 0) kind = 7; if (rp::rnd(5) == 0) kind = 2;
        Ptr e = gen(3, go, kind); deco(*e, kind, 2);
        if (kind == 6 && !e->empty() && rp::rnd(2)) { auto x = make_empty<ExtendElement>(); x->set(); for (int c = rp::rnd(4); c--;) { Ptr s = gen(1, go, rp::rnd(10) ? 2 : -1); deco(*s, kindOf(s.get()), 1); x->get().push_back(std::move(s)); } static_cast<MemberElement&>(*e).set(dsd::Member(std::move(x), gen(0, go))); }
        std::string d = dump(e.get()); rp::at(d);
        switch (kind) {
#define T(N, E) case N: typed(static_cast<const E&>(*e), d); break;
            T(0, NullElement) T(1, HolderElement) T(2, StringElement) T(3, NumberElement) T(4, BooleanElement) T(5, ArrayElement) T(6, MemberElement) T(7, ObjectElement) T(8, EnumElement) T(9, RefElement) T(10, ExtendElement) T(11, OptionElement) T(12, SelectElement)
        }
        if (kind == 7) { auto& o = static_cast<const ObjectElement&>(*e); for (auto k : { "", "a", "b", "id", "key", "foo", "zz" }) eqp("FindMemberByKey", static_cast<const IElement*>(FindMemberByKey(o, k)), byKey(o, k), d + " key " + k); }
        if (kind == 6) { auto& m = static_cast<const MemberElement&>(*e); bool t, u = false; std::string w = keyStr(m, t), h; try { h = GetKeyAsString(m); } catch (...) { u = true; } if (t != u || (!t && h != w)) rp::fail("GetKeyAsString", d + ": " + h + " want " + w); }
        if (dump(e.get()) != d) rp::fail("changed", d);
    }
    return rp::done();
}
