// C18: merging the layers of an extend element against an independent model on printed parts
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Exception.h"
#include "refract/dsd/Extend.h"
using namespace rf;
namespace
{
    using S = std::string; using KV = std::vector<std::pair<S, S> >;
    struct Item { S d; bool text = false; S key; bool ref = false; S sym; std::vector<S> opts; };
    struct L { int kind; S name; KV meta, attr; bool has = false; S val; std::vector<Item> items; bool en = false; S enHead; std::vector<Ptr> enums; };
    bool textKey(const IElement* e, S& k)
    {
        if (kindOf(e) != 6) return false;
        const IElement* q = static_cast<const MemberElement*>(e)->get().key();
        if (kindOf(q) != 2) return false;
        k = static_cast<const StringElement*>(q)->get().get(); return true;
    }
    Item item(const IElement* e)
    {
        Item i; i.d = dump(e); i.text = textKey(e, i.key);
        if (kindOf(e) == 9) { i.ref = true; i.sym = static_cast<const RefElement*>(e)->get().symbol(); }
        if (kindOf(e) == 12) for (auto& o : static_cast<const SelectElement*>(e)->get()) for (auto& m : o->get()) { S k; if (textKey(m.get(), k)) i.opts.push_back(k); }
        return i;
    }
    L split(const IElement* e)
    {
        L l; l.kind = kindOf(e); l.name = e->element(); l.has = !e->empty();
        for (auto& p : e->meta()) l.meta.emplace_back(p.first, dump(p.second.get()));
        for (auto& p : e->attributes()) {
            l.attr.emplace_back(p.first, dump(p.second.get()));
            if (p.first == "enumerations" && l.kind == 8) {
                l.en = true; DumpOpt o; o.value = false; l.enHead = dump(p.second.get(), o);
                for (auto& x : static_cast<const ArrayElement*>(p.second.get())->get()) l.enums.push_back(x->clone());
            }
        }
        if (l.has) {
            if (l.kind == 5) for (auto& x : static_cast<const ArrayElement*>(e)->get()) l.items.push_back(item(x.get()));
            else if (l.kind == 7) for (auto& x : static_cast<const ObjectElement*>(e)->get()) l.items.push_back(item(x.get()));
            else { DumpOpt o; o.name = o.meta = o.attrs = false; S all = dump(e, o); l.val = all.substr(all.find('=') + 1); }
        }
        return l;
    }
    void setkv(KV& m, const S& k, const S& d) { for (auto& p : m) if (p.first == k) { p.second = d; return; } m.emplace_back(k, d); }
    void mergeL(L& t, L& a)
    {
        for (auto& p : a.meta) if (p.first != "id" && p.first != "prefix" && p.first != "namespace") setkv(t.meta, p.first, p.second);
        for (auto& p : a.attr) if (t.kind != 8 || p.first != "enumerations") setkv(t.attr, p.first, p.second);
        if (t.kind == 8 && a.en && !a.enums.empty()) {
            if (!t.en) { t.en = true; t.enHead = a.enHead; t.attr.emplace_back("enumerations", ""); for (auto& x : a.enums) t.enums.push_back(x->clone()); }
            else for (auto& x : a.enums) {
                for (size_t i = 0; i < t.enums.size(); ++i) if (*x == *t.enums[i]) { t.enums.erase(t.enums.begin() + i); break; }
                t.enums.push_back(x->clone());
            }
        }
        if (!a.has) return;
        if (t.kind == 5) { if (a.items.empty()) return; for (auto& i : a.items) t.items.push_back(i); t.has = true; return; }
        if (t.kind == 7) {
            if (a.items.empty()) return;
            t.has = true;
            for (auto& m : a.items) {
                size_t at = t.items.size();
                for (size_t i = 0; i < t.items.size() && at == t.items.size(); ++i) {
                    auto& x = t.items[i];
                    if (m.text && ((x.text && x.key == m.key) || std::count(x.opts.begin(), x.opts.end(), m.key))) at = i;
                    if (m.ref && x.ref && x.sym == m.sym) at = i;
                }
                if (at == t.items.size()) t.items.push_back(m); else t.items[at] = m;
            }
            return;
        }
        t.has = true; t.val = a.val;
    }
    S seq(const std::vector<S>& v) { S s = "["; for (auto& x : v) s += x + ","; return s + "]"; }
    S print(const L& l)
    {
        static const char* kn[] = { "null", "holder", "string", "number", "boolean", "array", "member", "object", "enum", "ref", "extend", "option", "select" };
        S s = S(kn[l.kind]) + "'" + l.name + "'";
        auto kv = [&](const char* c, const KV& m) { if (m.empty()) return; s += S(c) + "{"; for (auto& p : m) { S d = p.second; if (l.en && p.first == "enumerations" && *c == 'A') { std::vector<S> v; for (auto& x : l.enums) v.push_back(dump(x.get())); d = l.enHead + "=" + seq(v); } s += rp::hex(p.first) + ":" + d + ";"; } s += "}"; };
        kv("M", l.meta); kv("A", l.attr);
        if (!l.has) return s + "-";
        if (l.kind == 5 || l.kind == 7) { std::vector<S> v; for (auto& i : l.items) v.push_back(i.d); return s + "=" + seq(v); }
        return s + "=" + l.val;
    }
}
int main()
{
    GenOpt go; go.unset = 4; go.maxkids = 4; go.info = 2;
    static const int kinds[] = { 2, 3, 4, 5, 7, 8, 9, 7, 8, 5 };
    for (long i = 0, n = rp::scale(9000, 150000); i < n; ++i) {
        int k = kinds[rp::rnd(10)]; bool odd = rp::rnd(12) == 0;
        dsd::Extend x; std::vector<L> ls; S d;
        int c = rp::rnd(5);
        for (int j = 0; j < c; ++j) {
            Ptr e = gen(rp::rnd(3) ? 2 : 1, go, odd && rp::rnd(2) ? int(rp::rnd(13)) : k);
            if (kindOf(e.get()) == 7 && !e->empty() && !rp::rnd(3)) {
                auto& ob = static_cast<ObjectElement*>(e.get())->get();
                for (int q = 1 + rp::rnd(2); q--;) {
                    auto at = ob.begin() + rp::rnd(ob.size() + 1);
                    if (rp::rnd(2)) { auto rf = make_empty<RefElement>(); rf->set(dsd::Ref(rp::rnd(2) ? "a" : "b")); if (rp::rnd(2)) rf->attributes().set("path", from_primitive(str(go))); ob.insert(at, std::move(rf)); }
                    else { auto s = make_empty<SelectElement>(); s->set(); for (int w = rp::rnd(3); w--;) { auto o = make_empty<OptionElement>(); o->set(); for (int z = rp::rnd(3); z--;) o->get().push_back(make_element<MemberElement>(Ptr(from_primitive(str(go))), gen(0, go))); s->get().push_back(std::move(o)); } ob.insert(at, std::move(s)); }
                }
            }
            if (!rp::rnd(3)) { static const char* mk[] = { "id", "prefix", "namespace", "ID", "prefi", "namespaces", "title" }; e->meta().set(mk[rp::rnd(7)], from_primitive(str(go))); }
            if (kindOf(e.get()) == 8) {
                e->attributes().erase("enumerations");
                if (rp::rnd(3)) { auto a = make_empty<ArrayElement>(); a->set(); if (!rp::rnd(4)) a->element("e"); for (int q = rp::rnd(4); q--;) a->get().push_back(rp::rnd(3) ? Ptr(from_primitive(str(go))) : gen(1, go)); e->attributes().set("enumerations", std::move(a)); if (!rp::rnd(3)) e->attributes().set("late", from_primitive(true)); }
            }
            d += " | " + dump(e.get()); ls.push_back(split(e.get())); x.push_back(std::move(e));
        }
        rp::at(d);
        S want = "nil";
        for (size_t j = 0; j < ls.size(); ++j) {
            int q = ls[0].kind;
            if (j && (ls[j].kind != q || q == 0 || q == 1 || q == 6 || q > 9)) { want = "error"; break; }
            if (j) mergeL(ls[0], ls[j]);
        }
        if (want != "error" && !ls.empty()) want = print(ls[0]);
        S before = dumpseq(x), got;
        try { Ptr r = x.merge(); got = dump(r.get()); } catch (const LogicError&) { got = "error"; }
        if (got != want) rp::fail("merge", d + ": have " + got + " want " + want);
        if (dumpseq(x) != before) rp::fail("layers", d + ": layers changed to " + dumpseq(x));
    }
    return rp::done();
}
