// C14: copies, moves, assignments and swaps of every data structure and element against structural dumps
// SOURCES: @REFRACT
#include "refract.h"
using namespace rf;
static std::string val(const dsd::Null&) { return "null"; }
static std::string val(const dsd::Holder& d) { return dump(d.data()); }
static std::string val(const dsd::String& d) { return rp::hex(d.get()); }
static std::string val(const dsd::Number& d) { return d.get(); }
static std::string val(const dsd::Boolean& d) { return d.get() ? "true" : "false"; }
static std::string val(const dsd::Member& d) { return "(" + dump(d.key()) + "->" + dump(d.value()) + ")"; }
static std::string val(const dsd::Enum& d) { return dump(d.value()); }
static std::string val(const dsd::Ref& d) { return "&" + d.symbol(); }
template <typename C> static std::string val(const C& d) { return dumpseq(d); }
template <typename D> static std::string dd(const D& d) { Element<D> e; std::string s = dump(&e); s.pop_back(); return s + "=" + val(d); } // without copying
static void ptrs(const IElement* e, std::set<const void*>& s);
static void iptrs(const InfoElements& m, std::set<const void*>& s) { for (const auto& p : m) ptrs(p.second.get(), s); }
template <typename C> static void sptrs(const C& c, std::set<const void*>& s) { for (const auto& p : c) ptrs(p.get(), s); }
static void ptrs(const IElement* e, std::set<const void*>& s)
{
    if (!e) return;
    s.insert(e); iptrs(e->meta(), s); iptrs(e->attributes(), s);
    if (e->empty()) return;
    switch (kindOf(e)) {
        case 1: ptrs(static_cast<const HolderElement*>(e)->get().data(), s); break;
        case 5: sptrs(static_cast<const ArrayElement*>(e)->get(), s); break;
        case 6: ptrs(static_cast<const MemberElement*>(e)->get().key(), s); ptrs(static_cast<const MemberElement*>(e)->get().value(), s); break;
        case 7: sptrs(static_cast<const ObjectElement*>(e)->get(), s); break;
        case 8: ptrs(static_cast<const EnumElement*>(e)->get().value(), s); break;
        case 10: sptrs(static_cast<const ExtendElement*>(e)->get(), s); break;
        case 11: sptrs(static_cast<const OptionElement*>(e)->get(), s); break;
        case 12: sptrs(static_cast<const SelectElement*>(e)->get(), s); break;
    }
}
static void apart(const IElement* a, const IElement* b, const std::string& d)
{
    std::set<const void*> x, y; ptrs(a, x); ptrs(b, y);
    for (auto p : x) if (y.count(p)) { rp::fail("shared", d); return; }
}
template <typename D> static void one(int k, GenOpt& go)
{
    using E = Element<D>;
    auto mk = [&] { return std::unique_ptr<E>(static_cast<E*>(gen(3, go, k).release())); };
    auto a = mk(), b = mk(); std::string da = dump(a.get()), db = dump(b.get()); std::string d = da + " <- " + db; rp::at(d);
    auto is = [&](const char* what, const IElement* e, const std::string& w) { auto g = dump(e); if (g != w) rp::fail(what, d + ": have " + g + " want " + w); };
    { E c(*a); is("el-copy", &c, da); is("el-copy-source", a.get(), da); apart(&c, a.get(), d); E m(std::move(c)); is("el-move", &m, da); }
    { E c(*a); c = *b; is("el-assign", &c, db); is("el-assign-source", b.get(), db); apart(&c, b.get(), d); E& self = c; c = self; is("el-self-assign", &c, db); E t(*a); c = std::move(t); is("el-move-assign", &c, da); c = E(*b); is("el-move-assign", &c, db); }
    { E c(*a), e(*b); std::swap(c, e); is("el-swap", &c, db); is("el-swap", &e, da); }
    { E c(*a); D v = b->empty() ? D{} : D(b->get()); std::string dv = dd(v); E n("nm", v); n.element(E().element()); is("el-named", &n, dv); c.set(v); E p; p.set(c.get()); is("el-set", &p, dv); if (c.empty()) rp::fail("el-set-unset", d); E x{ D(v) }; is("el-of", &x, dv); is("value-kept", &n, dv); }
    if (!a->empty() && !b->empty()) {
        D x(a->get()), y(b->get()); std::string dx = dd(a->get()), dy = dd(b->get());
        auto isd = [&](const char* what, const D& v, const std::string& w) { auto g = dd(v); if (g != w) rp::fail(what, d + ": have " + g + " want " + w); };
        isd("copy", x, dx); isd("copy", y, dy);
        x = y; isd("assign", x, dy); isd("assign-source", y, dy);
        { D& s = x; x = s; isd("self-assign", x, dy); }
        D z(a->get()); x = std::move(z); isd("move-assign", x, dx);
        D w(std::move(x)); isd("move", w, dx);
        using std::swap; swap(w, y); isd("swap", w, dy); isd("swap", y, dx);
        swap(w, w); isd("self-swap", w, dy);
        is("untouched", a.get(), da); is("untouched", b.get(), db);
    }
}
int main()
{
    GenOpt go; go.info = 2;
    for (long i = 0, n = rp::scale(350, 8000); i < n; ++i) {
        one<dsd::Null>(0, go); one<dsd::Holder>(1, go); one<dsd::String>(2, go); one<dsd::Number>(3, go); one<dsd::Boolean>(4, go); one<dsd::Array>(5, go); one<dsd::Member>(6, go); one<dsd::Object>(7, go);
        one<dsd::Enum>(8, go); one<dsd::Ref>(9, go); one<dsd::Extend>(10, go); one<dsd::Option>(11, go); one<dsd::Select>(12, go);
        { auto a = gen(2, go), b = gen(2, go); std::string da = dump(a.get()), db = dump(b.get()); rp::at("member/holder/enum " + da + " " + db);
          dsd::Member m(std::move(a), std::move(b)); if (dump(m.key()) != da || dump(m.value()) != db) rp::fail("member-of", da + " " + db);
          auto c = m.claim(); if (dump(c.get()) != db || m.value() || dump(m.key()) != da) rp::fail("member-claim", da + " " + db);
          m.value(std::move(c)); if (dump(m.value()) != db) rp::fail("member-value", db);
          dsd::Member s("k\n", m.claim()); if (dump(s.key()) != "string'string'=\"k\\x0a\"" || dump(s.value()) != db) rp::fail("member-key", db + " " + dump(s.key()));
          dsd::Holder h(s.claim()); auto hc = h.claim(); if (dump(hc.get()) != db || h.data()) rp::fail("holder", db);
          dsd::Enum e(std::move(hc)); auto ec = e.claim(); if (dump(ec.get()) != db || e.value()) rp::fail("enum", db); }
    }
    return rp::done();
}
