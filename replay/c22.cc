// C22: expansion against an independent expander over a plain copy of the elements; registries with chains, forks, cycles, self-members and mixins
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Registry.h"
#include "refract/ExpandVisitor.h"
#include "refract/Visitor.h"
#include "SourceAnnotation.h"
#include <deque>
#include <map>
#include <signal.h>
using namespace rf;
struct M;
using P = std::shared_ptr<M>;
using Info = std::vector<std::pair<std::string, P> >;
struct M { int kind = -1; std::string name, leaf; Info meta, attrs; bool has = false; std::vector<P> kids; };
static const char* kn[] = { "null", "holder", "string", "number", "boolean", "array", "member", "object", "enum", "ref", "extend", "option", "select" };
static const char* dn[] = { "null", "", "string", "number", "boolean", "array", "member", "object", "enum", "ref", "extend", "option", "select" };
static const char* reserved[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
static bool isRes(const std::string& s) { for (auto r : reserved) if (s == r) return true; return false; }
static bool isResC(const std::string& s) { return isRes(s.c_str()); }
static P of(const IElement* e);
template <typename C> static void all(std::vector<P>& v, const C& c) { for (const auto& p : c) v.push_back(of(p.get())); }
static P of(const IElement* e)
{
    if (!e) return nullptr;
    P m = std::make_shared<M>(); m->kind = kindOf(e); m->name = e->element(); m->has = !e->empty();
    for (const auto& p : e->meta()) m->meta.push_back({ p.first, of(p.second.get()) });
    for (const auto& p : e->attributes()) m->attrs.push_back({ p.first, of(p.second.get()) });
    if (!m->has) return m;
    switch (m->kind) {
        case 1: m->kids.push_back(of(static_cast<const HolderElement*>(e)->get().data())); break;
        case 2: m->leaf = static_cast<const StringElement*>(e)->get().get(); break;
        case 3: m->leaf = static_cast<const NumberElement*>(e)->get().get(); break;
        case 4: m->leaf = static_cast<const BooleanElement*>(e)->get().get() ? "true" : "false"; break;
        case 5: all(m->kids, static_cast<const ArrayElement*>(e)->get()); break;
        case 6: m->kids.push_back(of(static_cast<const MemberElement*>(e)->get().key())); m->kids.push_back(of(static_cast<const MemberElement*>(e)->get().value())); break;
        case 7: all(m->kids, static_cast<const ObjectElement*>(e)->get()); break;
        case 8: m->kids.push_back(of(static_cast<const EnumElement*>(e)->get().value())); break;
        case 9: m->leaf = static_cast<const RefElement*>(e)->get().symbol(); break;
        case 10: all(m->kids, static_cast<const ExtendElement*>(e)->get()); break;
        case 11: all(m->kids, static_cast<const OptionElement*>(e)->get()); break;
        case 12: all(m->kids, static_cast<const SelectElement*>(e)->get()); break;
    }
    return m;
}
static std::string show(const P& m);
static std::string showi(const Info& i) { std::string s = "{"; for (auto& p : i) s += rp::hex(p.first) + ":" + show(p.second) + ";"; return s + "}"; }
static std::string show(const P& m)
{
    if (!m) return "nil";
    std::string s = std::string(kn[m->kind]) + "'" + m->name + "'";
    if (!m->meta.empty()) s += "M" + showi(m->meta);
    if (!m->attrs.empty()) s += "A" + showi(m->attrs);
    if (!m->has) return s + "-";
    s += "=";
    switch (m->kind) {
        case 0: return s + "null";
        case 1: case 8: return s + show(m->kids[0]);
        case 2: return s + rp::hex(m->leaf);
        case 3: case 4: return s + m->leaf;
        case 6: return s + "(" + show(m->kids[0]) + "->" + show(m->kids[1]) + ")";
        case 9: return s + "&" + m->leaf;
    }
    s += "["; for (auto& k : m->kids) s += show(k) + ","; return s + "]";
}
struct Cycle {};
struct Big {};
static std::map<std::string, P> reg;
static std::vector<std::string> mem;
static long work;
static bool busy(const std::string& n) { for (auto& m : mem) if (m == n) return true; return false; }
static P mk(int kind, bool has) { P m = std::make_shared<M>(); m->kind = kind; m->name = dn[kind]; m->has = has; return m; }
static P strEl(const std::string& s) { P m = mk(2, true); m->leaf = s; return m; }
static void put(Info& i, const std::string& k, P v) { for (auto& p : i) if (p.first == k) { p.second = v; return; } i.push_back({ k, v }); }
static void drop(Info& i, const std::string& k) { for (size_t j = 0; j < i.size(); ++j) if (i[j].first == k) { i.erase(i.begin() + j); return; } }
static P get(const Info& i, const std::string& k) { for (auto& p : i) if (p.first == k) return p.second; return nullptr; }
static bool anyEx(const P& m);
static bool anyEx(const P& m)
{
    if (!m) return false;
    if (m->kind == 9 || !isRes(m->name)) return true;
    if (m->kind == 8 && anyEx(get(m->attrs, "enumerations"))) return true;
    if (!m->has || m->kind == 1) return false;
    for (auto& k : m->kids) if (anyEx(k)) return true;
    return false;
}
static P X(const P& e);
static P XO(const P& e) { if (!e) return nullptr; P r = X(e); return r ? r : e; }
static const P* keyOf(const P& m) { return m && m->kind == 6 && m->has && m->kids[0] && m->kids[0]->kind == 2 && m->kids[0]->has ? &m->kids[0] : nullptr; }
static P membersOf(const P& e)
{
    P o = mk(e->kind, e->has); o->meta = e->meta; o->attrs = e->attrs; o->leaf = e->leaf;
    if (e->has) for (auto& k : e->kids) {
        P x = XO(k);
        if (e->kind == 7) if (auto key = keyOf(x)) for (size_t j = 0; j < o->kids.size(); ++j) if (auto other = keyOf(o->kids[j])) if ((*other)->leaf == (*key)->leaf) { o->kids.erase(o->kids.begin() + j); break; }
        o->kids.push_back(x);
    }
    return o;
}
static P root(std::string n) { std::set<std::string> seen; for (;;) { seen.insert(n); std::string p = reg[n]->name; if (isRes(p) || !reg.count(p) || seen.count(p)) return reg[n]; n = p; } }
static P named(const P& e)
{
    const std::string n = e->name;
    if (busy(n)) { P r = root(n); P c = mk(r->kind, false); c->meta = r->meta; c->attrs = r->attrs; drop(c->meta, "id"); put(c->meta, "ref", strEl(n)); return c; }
    std::vector<P> layers; std::vector<std::string> seen; std::string at = n;
    while (reg.count(at) && !isRes(at)) {
        bool cyc = false; for (auto& s : seen) cyc = cyc || s == at;
        if (cyc) { layers.clear(); break; }
        seen.push_back(at); P a = std::make_shared<M>(*reg[at]); a->name = dn[a->kind]; drop(a->meta, "id"); put(a->meta, "ref", strEl(at)); layers.insert(layers.begin(), a); at = reg[at]->name;
    }
    P x = mk(10, true);
    mem.push_back(n); for (auto& l : layers) x->kids.push_back(XO(l)); mem.pop_back();
    P id = get(e->meta, "id"); if (id && id->has) x->meta.push_back({ "id", id });
    P o = membersOf(e); drop(o->meta, "id"); x->kids.push_back(o);
    return x;
}
// the expansion, or nothing
static P X(const P& e)
{
    if (++work > 20000) throw Big();
    bool nb = !isResC(e->name);
    switch (e->kind) {
        case 0: case 1: return nullptr;
        case 2: case 3: case 4: return nb ? named(e) : nullptr;
        case 6: { if (!anyEx(e)) return nullptr; P o = std::make_shared<M>(*e); o->has = true; if (o->kids.empty()) o->kids.resize(2); P k = XO(o->kids[0]), v = XO(o->kids[1]); o->kids = { k, v }; return o; }
        case 8: {
            if (nb) return named(e);
            P o = membersOf(e); o->attrs.clear();
            for (auto& a : e->attrs) { P v = a.second; if (a.first == "enumerations" && v->kind == 5) { P y = mk(5, true); for (auto& k : v->kids) y->kids.push_back(XO(k)); v = y; } put(o->attrs, a.first, v); }
            return o;
        }
        case 9: {
            P o = std::make_shared<M>(*e); if (e->leaf.empty()) return o;
            if (busy(e->leaf)) throw Cycle();
            if (reg.count(e->leaf)) { mem.push_back(e->leaf); P r = std::make_shared<M>(*XO(reg[e->leaf])); mem.pop_back(); P id = get(r->meta, "id"); if (id && id->has) { put(r->meta, "ref", id); drop(r->meta, "id"); } put(o->attrs, "resolved", r); }
            return o;
        }
        case 12: { if (!anyEx(e)) return nullptr; P o = mk(12, true); o->meta = e->meta; for (auto& k : e->kids) o->kids.push_back(XO(k)); return o; }
    }
    if (!anyEx(e)) return nullptr;
    return nb ? named(e) : membersOf(e);
}
static std::string cur;
static void hang(int) { std::cout << "FAIL key=hang " << cur << ": the expansion does not end" << std::endl; std::_Exit(1); }
static void tidy(const IElement* c) // no entry of a select under another name
{
    IElement* e = const_cast<IElement*>(c); if (!e) return;
    for (auto& p : e->attributes()) tidy(p.second.get());
    for (auto& p : e->meta()) tidy(p.second.get());
    if (e->empty()) return;
    switch (kindOf(e)) {
        case 1: tidy(static_cast<HolderElement*>(e)->get().data()); break;
        case 5: for (auto& p : static_cast<ArrayElement*>(e)->get()) tidy(p.get()); break;
        case 6: tidy(static_cast<MemberElement*>(e)->get().key()); tidy(static_cast<MemberElement*>(e)->get().value()); break;
        case 7: for (auto& p : static_cast<ObjectElement*>(e)->get()) tidy(p.get()); break;
        case 8: tidy(static_cast<EnumElement*>(e)->get().value()); break;
        case 9: if (!rp::rnd(2)) { static const char* s[] = { "T0", "T1", "T2", "T9" }; static_cast<RefElement*>(e)->get() = dsd::Ref(s[rp::rnd(4)]); } break;
        case 10: for (auto& p : static_cast<ExtendElement*>(e)->get()) tidy(p.get()); break;
        case 11: for (auto& p : static_cast<OptionElement*>(e)->get()) tidy(p.get()); break;
        case 12: for (auto& p : static_cast<SelectElement*>(e)->get()) { if (!isResC(p->element())) p->element("option"); tidy(p.get()); } break;
    }
}
int main()
{
    signal(SIGALRM, hang);
    GenOpt go; go.maxkids = 2; go.names_pool = { "T0", "T1", "T2", "T3", "T4", "string", "object", "Foo", std::string("string\0", 7) };
    long done = 0, named_ = 0, cyc = 0, none = 0;
    for (long i = 0, n = rp::scale(12000, 200000); i < n; ++i) {
        Registry r; reg.clear(); mem.clear();
        int k = 1 + rp::rnd(5), shape = rp::rnd(4); std::string d;
        static const int kinds[] = { 7, 7, 7, 5, 8, 2, 3, 10, 11, 4, 6, 0 };
        for (int j = 0; j < k; ++j) {
            std::string id = "T" + std::to_string(j);
            Ptr e = gen(shape == 3 ? 2 : 1, go, kinds[rp::rnd(shape ? 6 : 12)]);
            std::string p = shape == 0 ? "T" + std::to_string(rp::rnd(k)) : j && rp::rnd(3) ? "T" + std::to_string(j - 1) : rp::rnd(6) ? dn[kindOf(e.get())] : rp::rnd(2) ? "Foo" : id;
            e->element(p); tidy(e.get()); e->meta().set("id", Ptr(from_primitive(id)));
            r.add(std::move(e));
        }
        for (auto b : { "boolean", "number", "string", "array", "object", "enum", "null", "T0", "T1", "T2", "T3", "T4" }) if (auto e = r.find(b)) { reg[b] = of(e); if (b[0] == 'T') d += std::string(b) + "=" + show(reg[b]) + " "; }
        std::map<std::string, std::string> before; for (auto& x : reg) before[x.first] = show(x.second);
        for (int q = 0; q < 3; ++q) {
            Ptr e = gen(rp::rnd(3), go, rp::rnd(2) ? -1 : kinds[rp::rnd(12)]); if (rp::rnd(2)) e->element("T" + std::to_string(rp::rnd(k))); tidy(e.get());
            if (kindOf(e.get()) == 8 && rp::rnd(2)) e->attributes().set("enumerations", gen(2, go, rp::rnd(8) ? 5 : -1));
            tidy(e.get());
            P m = of(e.get()); std::string in = show(m); cur = d + "expand " + in; rp::at(cur);
            std::string want; work = 0; mem.clear();
            try { want = show(X(m)); } catch (Cycle&) { want = "error"; } catch (Big&) { continue; }
            std::string have;
            alarm(20);
            ExpandVisitor v(r);
            try { VisitBy(*e, v); have = dump(v.get().get()); } catch (snowcrash::Error&) { have = "error"; }
            alarm(0);
            if (have != want) rp::fail("expand", cur + ": have " + have + " want " + want);
            if (dump(e.get()) != in) rp::fail("changed", cur);
            for (auto& x : reg) if (dump(r.find(x.first)) != before[x.first]) rp::fail("registry", cur);
            if (want != "error") { ExpandVisitor w(r); w(static_cast<const IElement&>(*e)); if (dump(w.get().get()) != want) rp::fail("by-base", cur); }
            ++done; if (want == "error") ++cyc; else if (want == "nil") ++none; else if (m->name[0] == 'T') ++named_;
        }
    }
    if (!done || !named_ || !cyc || !none) rp::fail("coverage", "kinds of outcome missing");
    return rp::done();
}
