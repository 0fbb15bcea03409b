// C20: root ancestors over registries with chains, forks and cycles of any length
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Registry.h"
#include <map>
#include <signal.h>
using namespace rf;
static const char* reserved[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
static bool isRes(const std::string& s) { for (auto r : reserved) if (s == r) return true; return false; }
static std::string cur;
static void hang(int) { std::cout << "FAIL key=hang " << cur << ": the walk does not end" << std::endl; std::_Exit(1); }
int main()
{
    signal(SIGALRM, hang);
    std::vector<std::string> special = { "string", "object", "", "ref", "unknown", "null", "array", "number", std::string("string\0", 7), std::string("ref\0T", 5), "extend", "member", "generic", "select", "option" };
    for (long i = 0, n = rp::scale(4000, 60000); i < n; ++i) {
        Registry r; if (!rp::rnd(6)) r.clear();
        std::map<std::string, std::string> par; std::map<std::string, const IElement*> el;
        int k = rp::rnd(4) ? 1 + rp::rnd(5) : 1 + rp::rnd(30); std::string d;
        int shape = rp::rnd(4);
        for (int j = 0; j < k; ++j) {
            std::string id = "T" + std::to_string(j), p;
            if (shape == 0) p = j + 1 < k ? "T" + std::to_string(j + 1) : rp::rnd(2) ? "T" + std::to_string(rp::rnd(k)) : special[rp::rnd(special.size())];
            else if (shape == 1) p = "T" + std::to_string(rp::rnd(k));
            else if (shape == 2 && rp::rnd(4)) p = "T" + std::to_string(rp::rnd(k + 1));
            else p = special[rp::rnd(special.size())];
            Ptr e; switch (rp::rnd(4)) { case 0: e = from_primitive(std::string("v")); break; case 1: e = make_empty<ArrayElement>(); break; case 2: e = make_empty<EnumElement>(); break; default: e = make_empty<ObjectElement>(); }
            e->element(p); e->meta().set("id", Ptr(from_primitive(id)));
            el[id] = e.get(); par[id] = p; d += id + ":" + rp::hex(p) + " "; r.add(std::move(e));
        }
        for (auto b : { "boolean", "number", "string", "array", "object", "enum", "null" }) if (auto e = r.find(b)) { el[b] = e; par[b] = e->element(); }
        for (int q = 0; q < 4; ++q) {
            std::string nm = rp::rnd(5) ? "T" + std::to_string(rp::rnd(k + 1)) : special[rp::rnd(special.size())];
            cur = d + "from " + rp::hex(nm); rp::at(cur);
            const IElement* w = nullptr; std::set<std::string> seen; std::string at = nm;
            if (el.count(at)) for (;;) { w = el[at]; seen.insert(at); std::string nx = par[at]; if (isRes(nx) || !el.count(nx) || seen.count(nx)) break; at = nx; }
            alarm(10);
            const IElement* h = FindRootAncestor(nm, r);
            alarm(0);
            if (h != w) rp::fail("root", cur + ": have " + dump(h) + " want " + dump(w));
        }
    }
    return rp::done();
}
