// C13: clones with every flag combination against the parts the flags ask for
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/Utils.h"
using namespace rf;
int main()
{
    static const char* dn[] = { "null", "", "string", "number", "boolean", "array", "member", "object", "enum", "ref", "extend", "option", "select" };
    GenOpt go; go.info = 2;
    for (long i = 0, n = rp::scale(2500, 60000); i < n; ++i) {
        int k = i % 13; auto e = gen(3, go, k); int f = rp::rnd(3) ? rp::rnd(32) : rp::rnd(2) ? 15 : 31; std::string before = dump(e.get());
        std::string d = before + " cloned with " + std::to_string(f); rp::at(d);
        auto c = rp::rnd(2) ? e->clone(f) : refract::clone(*e, f);
        if (!c || c.get() == e.get() || kindOf(c.get()) != k) { rp::fail("kind", d); continue; }
        if (c->element() != (f & 8 ? e->element() : dn[k])) rp::fail("name", d + ": " + c->element());
        if (dumpie(c->attributes()) != (f & 2 ? dumpie(e->attributes()) : "{}")) rp::fail("attributes", d + ": " + dumpie(c->attributes()));
        std::string m = "{";
        if (f & 1) for (const auto& p : e->meta()) if (!((f & 16) && p.first == "id")) m += rp::hex(p.first) + ":" + dump(p.second.get()) + ";";
        if (dumpie(c->meta()) != m + "}") rp::fail("meta", d + ": " + dumpie(c->meta()));
        DumpOpt o; o.name = o.meta = o.attrs = false;
        if (f & 4 ? dump(c.get(), o) != dump(e.get(), o) : !c->empty()) rp::fail("value", d + ": " + dump(c.get(), o));
        if (dump(e.get()) != before) rp::fail("original", d);
        if ((f & 15) == 15 && !(f & 16) && (!(*c == *e) || *c != *e || dump(c.get()) != before)) rp::fail("full", d);
        if ((f & 7) == 7 && !(f & 16) && !(*c == *e)) rp::fail("full-name", d);
        c->meta().set("m", from_primitive(true)); c->attributes().clear(); if (dump(e.get()) != before) rp::fail("shared", d);
        e.reset(); dump(c.get());
    }
    return rp::done();
}
