// C19: histories of add, find, remove and clear against an independent table
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Registry.h"
#include <map>
using namespace rf;
static const char* reserved[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
static bool isRes(const std::string& s) { for (auto r : reserved) if (s == r) return true; return false; }
int main()
{
    GenOpt go;
    std::vector<std::string> names = { "A", "B", "Foo", "", "string", "ref", "strin", "String", "stringg", "a/b", std::string("A\0", 2), std::string("A\0B", 3), std::string("ref\0x", 5), "\xC3\xA9", "option", "number", "Null", "object ", std::string(40, 'q') };
    std::vector<std::string> ask = names; for (auto r : reserved) ask.push_back(r);
    const char* base[] = { "boolean", "number", "string", "array", "object", "enum", "null" };
    for (long i = 0, n = rp::scale(1200, 20000); i < n; ++i) {
        Registry r; std::map<std::string, std::string> t; std::string d; bool bad = false;
        for (auto b : base) t[b] = std::string(b) + "'" + b + "'-";
        auto check = [&](const std::string& d) {
            rp::at(d);
            for (auto& a : ask) {
                const IElement* e = r.find(a); auto it = t.find(a);
                std::string h = dump(e), w = it == t.end() ? "nil" : it->second;
                if (h != w) { rp::fail("find", d + ": find " + rp::hex(a) + " have " + h + " want " + w); bad = true; return; }
            }
        };
        check("fresh registry");
        for (int s = 1 + rp::rnd(12); s-- && !bad;) {
            std::string nm = names[rp::rnd(names.size())];
            switch (rp::rnd(8)) {
            case 0: { if (rp::rnd(6)) break; r.clear(); t.clear(); d += " clear"; break; }
            case 1: case 2: {
                bool h = r.remove(nm), w = t.erase(nm) > 0; d += " remove " + rp::hex(nm);
                if (h != w) { rp::fail("remove", d + ": returned " + std::to_string(h)); bad = true; }
                break; }
            default: {
                Ptr e = gen(rp::rnd(3), go); int how = rp::rnd(10); bool str = true, has = true;
                if (how == 0) { e->meta().erase("id"); has = false; }
                else if (how == 1) { e->meta().set("id", Ptr(from_primitive(true))); str = false; }
                else if (how == 2) { auto a = make_empty<ArrayElement>(); a->set(); a->get().push_back(from_primitive(nm)); e->meta().set("id", std::move(a)); str = false; }
                else if (how == 3) { e->meta().set("id", Ptr(new EnumElement(dsd::Enum{}))); str = false; }
                else if (how == 4) { e->meta().erase("id"); has = false; e->attributes().set("id", Ptr(from_primitive(nm))); }
                else e->meta().set("id", Ptr(from_primitive(nm)));
                std::string dd = dump(e.get());
                // an empty meta id of "String without value" keeps the empty text
                d += " add " + dd; rp::at(d);
                int h; try { h = r.add(std::move(e)); } catch (const std::exception&) { h = 2; }
                int w = !has || !str || isRes(nm) ? 2 : t.count(nm) ? 0 : 1;
                if (w == 1) t[nm] = dd;
                if (h != w) { rp::fail("add", d + ": returned " + std::to_string(h) + " want " + std::to_string(w)); bad = true; }
            } }
            if (!bad) check(d);
        }
    }
    return rp::done();
}
