// C16: random operation sequences on meta collections against an ordered list of entries
// SOURCES: @REFRACT
#include <algorithm>
#include "refract.h"
using namespace rf;
using Model = std::vector<std::pair<std::string, std::string>>;
static std::string show(const Model& m) { std::string s = "{"; for (auto& p : m) s += rp::hex(p.first) + ":" + p.second + ";"; return s + "}"; }
int main()
{
    const char* keys[] = { "", "a", "b", "id", "title", "ab" };
    long n = rp::scale(4000, 40000);
    GenOpt go; go.info = 5;
    for (long i = 0; i < n; ++i) {
        auto m = std::make_unique<InfoElements>(); auto m2 = std::make_unique<InfoElements>(); Model r, r2; std::string d = "new"; for (int q = rp::rnd(3); q--;) { const char* k = keys[rp::rnd(6)]; bool have = false; for (auto& x : r2) have = have || x.first == k; if (have) continue; auto e = gen(0, go); r2.emplace_back(k, dump(e.get())); m2->set(k, std::move(e)); d += std::string(" other.set(") + k + ")"; }
        for (int s = 0, steps = 1 + rp::rnd(14); s < steps; ++s) {
            std::string k = keys[rp::rnd(6)]; int op = rp::rnd(14);
            auto at = std::find_if(r.begin(), r.end(), [&](const Model::value_type& p) { return p.first == k; });
            d += " op" + std::to_string(op) + "(" + k + ")"; rp::at(d);
            switch (op) {
                case 0: case 1: case 2: { auto e = gen(2, go); auto ds = dump(e.get()); IElement* raw = e.get(); IElement& b = m->set(k, std::move(e)); if (&b != raw) rp::fail("set-ref", d); if (at != r.end()) at->second = ds; else r.emplace_back(k, ds); break; }
                case 3: { auto e = gen(2, go); auto ds = dump(e.get()); IElement& b = m->set(k, *e); if (&b == e.get() || dump(&b) != ds || dump(e.get()) != ds) rp::fail("set-copy", d); if (at != r.end()) at->second = ds; else r.emplace_back(k, ds); break; }
                case 4: m->erase(k); r.erase(std::remove_if(r.begin(), r.end(), [&](const Model::value_type& p) { return p.first == k; }), r.end()); break;
                case 5: if (!r.empty()) { size_t p = rp::rnd(r.size()); m->erase(m->begin() + p); r.erase(r.begin() + p); } break;
                case 6: { auto e = m->claim(k); if (dump(e.get()) != (at == r.end() ? "nil" : at->second)) rp::fail("claim", d + ": got " + dump(e.get())); if (at != r.end()) r.erase(at); break; }
                case 7: if (!r.empty()) { size_t p = rp::rnd(r.size()); auto e = m->claim(m->begin() + p); if (dump(e.get()) != r[p].second) rp::fail("claim-it", d); r.erase(r.begin() + p); } break;
                case 8: if (!rp::rnd(3)) { m->clear(); r.clear(); } break;
                case 9: if (r.size() < 20) { m->clone(*m2); r.insert(r.end(), r2.begin(), r2.end()); } break;
                case 10: { auto c = std::make_unique<InfoElements>(*m); if (dumpie(*c) != show(r)) rp::fail("copy", d + ": " + dumpie(*c)); for (size_t j = 0; j < r.size(); ++j) if ((c->begin() + j)->second.get() == (m->begin() + j)->second.get()) rp::fail("copy-shared", d); m = std::move(c); break; }
                case 11: { auto c = std::make_unique<InfoElements>(std::move(*m)); m = std::move(c); break; }
                case 12: if (rp::rnd(2)) { *m2 = *m; r2 = r; } else { *m = std::move(*m2); r = r2; *m2 = InfoElements(); r2.clear(); } break;
                default: { swap(*m, *m2); std::swap(r, r2); if (!rp::rnd(3)) { auto& x = *m; *m = x; } break; }
            }
            if (dumpie(*m) != show(r) || dumpie(*m2) != show(r2)) { rp::fail("state", d + ": have " + dumpie(*m) + " want " + show(r)); break; }
            if (m->size() != r.size() || m->empty() != r.empty()) { rp::fail("size", d); break; }
            const InfoElements& c = *m;
            for (auto q : keys) {
                size_t w = std::find_if(r.begin(), r.end(), [&](const Model::value_type& p) { return p.first == q; }) - r.begin();
                if (size_t(m->find(q) - m->begin()) != w || size_t(c.find(q) - c.begin()) != w) { rp::fail("find", d + " key " + q); break; }
            }
        }
    }
    return rp::done();
}
