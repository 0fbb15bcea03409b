// random refract elements and an independent structural dump of them
#ifndef REPLAY_REFRACT_H
#define REPLAY_REFRACT_H
#include "common.h"
#include "refract/Element.h"
#include "refract/InfoElements.h"
namespace rf
{
    using namespace refract;
    using Ptr = std::unique_ptr<IElement>;
    inline int kindOf(const IElement* e)
    {
        if (!e) return -1;
        int k = -1, n = 0;
#define K(T, i) if (typeid(*e) == typeid(T)) { k = i; ++n; }
        K(NullElement, 0) K(HolderElement, 1) K(StringElement, 2) K(NumberElement, 3) K(BooleanElement, 4) K(ArrayElement, 5) K(MemberElement, 6) K(ObjectElement, 7) K(EnumElement, 8) K(RefElement, 9) K(ExtendElement, 10) K(OptionElement, 11) K(SelectElement, 12)
#undef K
        return n == 1 ? k : -2;
    }
    inline bool& withNames() { static bool b = true; return b; } // element names in dumps
    inline long& mutateAt() { static long n = -1; return n; }    // node to alter after generation (counted in completion order)
    inline int& mutateHow() { static int n = 0; return n; }
    struct DumpOpt { bool name = true; bool meta = true; bool attrs = true; bool value = true; };
    std::string dump(const IElement* e, DumpOpt o = {});
    inline std::string dumpie(const InfoElements& m) { std::string s = "{"; for (const auto& p : m) s += rp::hex(p.first) + ":" + dump(p.second.get()) + ";"; return s + "}"; }
    template <typename C> std::string dumpseq(const C& c) { std::string s = "["; for (const auto& p : c) s += dump(p.get()) + ","; return s + "]"; }
    inline std::string dump(const IElement* e, DumpOpt o)
    {
        static const char* kn[] = { "null", "holder", "string", "number", "boolean", "array", "member", "object", "enum", "ref", "extend", "option", "select" };
        if (!e) return "nil";
        int k = kindOf(e);
        if (k < 0) return "?";
        std::string s = kn[k];
        if (o.name && withNames()) s += "'" + e->element() + "'";
        if (o.meta && !e->meta().empty()) s += "M" + dumpie(e->meta());
        if (o.attrs && !e->attributes().empty()) s += "A" + dumpie(e->attributes());
        if (!o.value) return s;
        if (e->empty()) return s + "-";
        s += "=";
        switch (k) {
            case 0: s += "null"; break;
            case 1: s += dump(static_cast<const HolderElement*>(e)->get().data()); break;
            case 2: s += rp::hex(static_cast<const StringElement*>(e)->get().get()); break;
            case 3: s += static_cast<const NumberElement*>(e)->get().get(); break;
            case 4: s += static_cast<const BooleanElement*>(e)->get().get() ? "true" : "false"; break;
            case 5: s += dumpseq(static_cast<const ArrayElement*>(e)->get()); break;
            case 6: { const auto& m = static_cast<const MemberElement*>(e)->get(); s += "(" + dump(m.key()) + "->" + dump(m.value()) + ")"; break; }
            case 7: s += dumpseq(static_cast<const ObjectElement*>(e)->get()); break;
            case 8: s += dump(static_cast<const EnumElement*>(e)->get().value()); break;
            case 9: s += "&" + static_cast<const RefElement*>(e)->get().symbol(); break;
            case 10: s += dumpseq(static_cast<const ExtendElement*>(e)->get()); break;
            case 11: s += dumpseq(static_cast<const OptionElement*>(e)->get()); break;
            default: s += dumpseq(static_cast<const SelectElement*>(e)->get()); break;
        }
        return s;
    }
    struct GenOpt { bool nulls = true; bool names = true; int info = 4; std::vector<std::string> names_pool = { "A", "B", "string", "object", "Foo" }; int maxkids = 3; bool dupkeys = false; int unset = 5; };
    inline Ptr gen(int depth, const GenOpt& o, int kind = -1);
    inline std::string str(const GenOpt&) { static const char* p[] = { "", "a", "b", "id", "key", "x y", "\xC3\xA9", "foo", "0", "Foo" }; return p[rp::rnd(10)]; }
    inline Ptr maybe(int depth, const GenOpt& o) { if (o.nulls && !rp::rnd(6)) return nullptr; return gen(depth, o); }
    inline void info(InfoElements& m, int depth, const GenOpt& o)
    {
        static const char* keys[] = { "id", "title", "default", "samples", "typeAttributes", "description", "enumerations", "variable", "a", "b" };
        if (!o.info || depth < 0 || rp::rnd(o.info)) return;
        int n = 1 + rp::rnd(3);
        for (int i = 0; i < n; ++i) m.set(keys[rp::rnd(10)], gen(depth > 1 ? 1 : depth - 1, o));
    }
    // parts added behind the back of the constructors (set() copies)
    inline void late(const IElement* c, int depth, const GenOpt& o) { if (!c || rp::rnd(4)) return; auto& e = const_cast<IElement&>(*c); info(e.attributes(), depth, o); info(e.meta(), depth, o); if (o.names && !rp::rnd(4)) e.element("Foo"); }
    inline Ptr gen(int depth, const GenOpt& o, int kind)
    {
        if (kind < 0) { do kind = rp::rnd(13); while (depth <= 0 && (kind == 1 || kind >= 5) && kind != 9 && rp::rnd(4)); }
        Ptr r; bool set = o.unset <= 0 || rp::rnd(o.unset);
        int n = depth > 0 ? rp::rnd(o.maxkids + 1) : 0; int d = depth - 1;
        switch (kind) {
            case 0: r = set ? make_element<NullElement>() : make_empty<NullElement>(); break;
            case 1: { auto e = make_empty<HolderElement>(); if (set) e->set(dsd::Holder(depth > 0 ? maybe(d, o) : (o.nulls ? nullptr : gen(0, o, 2)))); if (set) late(e->get().data(), depth, o); r = std::move(e); break; }
            case 2: r = set ? from_primitive(str(o)) : make_empty<StringElement>(); break;
            case 3: { auto e = make_empty<NumberElement>(); if (set) { static const char* p[] = { "0", "1", "42", "-7", "3.5", "1" }; e->set(dsd::Number(std::string(p[rp::rnd(6)]))); } r = std::move(e); break; }
            case 4: r = set ? from_primitive(rp::rnd(2) == 0) : make_empty<BooleanElement>(); break;
            case 5: { auto e = make_empty<ArrayElement>(); if (set) { e->set(); while (n--) e->get().push_back(gen(d, o)); } r = std::move(e); break; }
            case 6: { auto e = make_empty<MemberElement>(); if (set) { Ptr k = rp::rnd(4) ? Ptr(from_primitive(str(o))) : (depth > 0 ? maybe(d, o) : (o.nulls ? nullptr : Ptr(gen(0, o, 2)))); Ptr v = depth > 0 ? maybe(d, o) : (o.nulls ? nullptr : gen(0, o, 2)); e->set(dsd::Member(std::move(k), std::move(v))); late(e->get().key(), depth, o); late(e->get().value(), depth, o); } r = std::move(e); break; }
            case 7: { auto e = make_empty<ObjectElement>(); if (set) { e->set(); while (n--) e->get().insert(e->get().end(), gen(d, o, rp::rnd(4) ? 6 : -1)); } r = std::move(e); break; }
            case 8: { auto e = make_empty<EnumElement>(); if (set) e->set(dsd::Enum(depth > 0 ? maybe(d, o) : (o.nulls ? nullptr : gen(0, o, 2)))); if (set) late(e->get().value(), depth, o); r = std::move(e); break; }
            case 9: r = make_empty<RefElement>(); if (set) static_cast<RefElement*>(r.get())->set(dsd::Ref(str(o))); break;
            case 10: { auto e = make_empty<ExtendElement>(); if (set) { e->set(); while (n--) e->get().push_back(gen(d, o)); } r = std::move(e); break; }
            case 11: { auto e = make_empty<OptionElement>(); if (set) { e->set(); while (n--) e->get().push_back(gen(d, o)); } r = std::move(e); break; }
            default: { auto e = make_empty<SelectElement>(); if (set) { e->set(); while (n--) { Ptr c = gen(d, o, 11); e->get().push_back(std::unique_ptr<OptionElement>(static_cast<OptionElement*>(c.release()))); } } r = std::move(e); break; }
        }
        if (o.names && !rp::rnd(4)) r->element(o.names_pool[rp::rnd(o.names_pool.size())]);
        info(r->meta(), depth, o); info(r->attributes(), depth, o);
        if (mutateAt() >= 0 && mutateAt()-- == 0) switch (mutateHow()) {
            case 0: r->element("other"); break;
            case 1: r->meta().set("zz", from_primitive(true)); break;
            case 2: r->attributes().set("zz", from_primitive(true)); break;
            case 3: if (kind != 12 && kind != 11) r = r->clone(IElement::cAll & ~IElement::cValue); break;
            case 4: if (r->meta().size() > 1) std::swap(r->meta().begin()->second, (r->meta().begin() + 1)->second); break;
            case 5: if (kind == 2) static_cast<StringElement*>(r.get())->set(dsd::String("a")); if (kind == 4) static_cast<BooleanElement*>(r.get())->set(dsd::Boolean(true)); if (kind == 3) static_cast<NumberElement*>(r.get())->set(dsd::Number(std::string("1"))); if (kind == 9) static_cast<RefElement*>(r.get())->set(dsd::Ref("b")); break;
            case 6: if (kind == 5 && !r->empty()) static_cast<ArrayElement*>(r.get())->get().push_back(make_empty<NullElement>()); if (kind == 12 && !r->empty()) static_cast<SelectElement*>(r.get())->get().push_back(make_empty<OptionElement>()); if (kind == 7 && !r->empty()) static_cast<ObjectElement*>(r.get())->get().clear(); if (kind == 10 && !r->empty()) static_cast<ExtendElement*>(r.get())->get().clear(); break;
            case 7: if (kind == 6 && !r->empty()) { auto& m = static_cast<MemberElement*>(r.get())->get(); m.value(m.value() ? nullptr : std::unique_ptr<IElement>(make_empty<NullElement>())); } if (kind == 8 && !r->empty()) static_cast<EnumElement*>(r.get())->get().claim(); if (kind == 1 && !r->empty()) static_cast<HolderElement*>(r.get())->get().claim(); break;
            case 8: if (kind != 11 && depth > 0) { Ptr x = make_element<ArrayElement>(); static_cast<ArrayElement*>(x.get())->get().push_back(std::move(r)); r = std::move(x); } break;
            case 10: case 11: { auto& m = mutateHow() == 10 ? r->attributes() : r->meta(); if (m.size()) { auto& k = m.begin()[m.size() - 1].first; static int w = 0; if (w++ % 3 == 0) k += "s"; else if (w % 3 == 1 && !k.empty()) k.pop_back(); else if (!k.empty()) k[0] ^= 0x20; } break; }
            default: if (r->attributes().size()) { auto k = r->attributes().begin()->first; r->attributes().erase(k); } break;
        }
        return r;
    }
}
#endif
