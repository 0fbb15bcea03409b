// C25: appending values to info elements against an independent list model
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/InfoElementsUtils.h"
using namespace rf;
int main()
{
    GenOpt go;
    const char* keys[] = { "typeAttributes", "a", "id" };
    const char* vals[] = { "fixed", "required", "nullable", "", "x" };
    for (long i = 0, n = rp::scale(3000, 60000); i < n; ++i) {
        InfoElements ie; std::vector<std::pair<std::string, std::string>> w; std::string d;
        int others = rp::rnd(4);
        const char* ok[] = { "title", "b", "id2", "zz" };
        for (int j = 0; j < others; ++j) { std::string k = ok[j]; auto e = gen(1, go); w.emplace_back(k, dump(e.get())); ie.set(k, std::move(e)); }
        // existing arrays
        for (int j = 0; j < 2; ++j) if (rp::rnd(2)) {
            std::string k = keys[rp::rnd(3)]; bool dup = false; for (auto& p : w) dup = dup || p.first == k; if (dup) continue;
            auto a = make_empty<ArrayElement>();
            if (rp::rnd(4)) { a->set(); for (int c = rp::rnd(4); c--;) if (rp::rnd(4)) a->get().push_back(from_primitive(std::string(vals[rp::rnd(5)]))); else a->get().push_back(gen(1, go)); }
            w.emplace_back(k, dump(a.get())); ie.set(k, std::move(a));
        }
        d = dumpie(ie);
        for (int s = 1 + rp::rnd(4); s--;) {
            std::string k = keys[rp::rnd(3)], v = vals[rp::rnd(5)]; d += " append(" + k + "," + v + ")"; rp::at(d);
            std::string ex = dump(from_primitive(v).get());
            auto it = ie.find(k);
            if (it == ie.end()) w.emplace_back(k, "array'array'=[" + ex + ",]");
            else {
                auto a = dynamic_cast<ArrayElement*>(it->second.get());
                bool has = false; std::string head, body;
                { ArrayElement c(*a); if (!c.empty()) { for (const auto& p : static_cast<const ArrayElement&>(c).get()) { auto st = dynamic_cast<const StringElement*>(p.get()); if (st && dump(st, { false, false, false, true }).substr(0, 7) == "string=" && st->get().get() == v) has = true; if (st && st->empty() && v.empty()) has = true; body += dump(p.get()) + ","; } } c.set(); head = dump(&c); head = head.substr(0, head.size() - 2); }
                if (!has) for (auto& p : w) if (p.first == k) p.second = head + "[" + body + ex + ",]";
            }
            AppendInfoElement<ArrayElement>(ie, k, dsd::String{ v });
            std::vector<std::string> h, e; for (auto& p : ie) { h.push_back(p.first); h.push_back(dump(p.second.get())); } for (auto& p : w) { e.push_back(p.first); e.push_back(p.second); }
            if (h != e) { rp::fail("append", d + ": have " + rp::list(h) + " want " + rp::list(e)); break; }
        }
    }
    return rp::done();
}
