// C17: random operation sequences on every container against a list of children
// SOURCES: @REFRACT
#include "refract.h"
#include <algorithm>
using namespace rf;
static GenOpt go;
static std::string keyOf(const IElement* e) // "=" + text key, or "" when it has none
{
    auto m = dynamic_cast<const MemberElement*>(e); if (!m || m->empty()) return "";
    auto k = dynamic_cast<const StringElement*>(m->get().key()); if (!k || k->empty()) return "";
    return "=" + k->get().get();
}
template <typename P> struct Mk { static P mk(int) { return gen(2, go, rp::rnd(3) ? 6 : -1); } };
template <> struct Mk<std::unique_ptr<OptionElement>> { static std::unique_ptr<OptionElement> mk(int) { return std::unique_ptr<OptionElement>(static_cast<OptionElement*>(gen(2, go, 11).release())); } };
template <typename C> struct IsObj { static const bool v = false; };
template <> struct IsObj<dsd::Object> { static const bool v = true; };
template <typename C> static std::string key(const std::string&) { return ""; }
static std::string addMember(dsd::Object& o, const std::string& k) { auto v = rp::rnd(5) ? gen(1, go) : nullptr; std::string d = dump(v.get()); auto it = o.addMember(k, std::move(v)); if (it != o.end() - 1) rp::fail("addMember-it", k); return "member'member'=(string'string'=" + rp::hex(k) + "->" + d + ")"; }
template <typename C> static std::string addMember(C&, const std::string&) { return ""; }
static int find(dsd::Object& o, const std::string& k) { return o.find(k) - o.begin(); }
template <typename C> static int find(C&, const std::string&) { return 0; }
template <typename C> static void run(const char* name)
{
    using V = typename C::value_type;
    const char* keys[] = { "", "a", "b", "id", "foo" };
    for (long i = 0, n = rp::scale(2500, 30000); i < n; ++i) {
        C c; std::vector<std::pair<std::string, std::string>> r; std::string d = name; // key, dump
        auto dropKey = [&](const std::string& k) { auto it = std::find_if(r.begin(), r.end(), [&](const std::pair<std::string, std::string>& p) { return p.first == k; }); if (it != r.end()) r.erase(it); };
        for (int s = 0, steps = 1 + rp::rnd(14); s < steps; ++s) {
            int op = rp::rnd(9); d += " op" + std::to_string(op);
            size_t a = rp::rnd(r.size() + 1), b = rp::rnd(r.size() + 1); if (a > b) std::swap(a, b);
            switch (op) {
                case 0: case 1: case 2: { V e = Mk<V>::mk(0); auto ds = dump(e.get()); auto k = keyOf(e.get()); d += "(" + ds + ")"; rp::at(d); c.push_back(std::move(e)); if (IsObj<C>::v && !k.empty()) dropKey(k); r.emplace_back(k, ds); break; }
                case 3: case 4: { V e = Mk<V>::mk(0); auto ds = dump(e.get()); auto k = keyOf(e.get()); d += "@" + std::to_string(a) + "(" + ds + ")"; rp::at(d); IElement* raw = e.get(); auto it = c.insert(c.begin() + a, std::move(e)); if (size_t(it - c.begin()) != a || it->get() != raw) rp::fail("insert-it", d); r.insert(r.begin() + a, { k, ds }); break; }
                case 5: if (a < r.size()) { d += "@" + std::to_string(a); rp::at(d); auto it = c.erase(c.begin() + a); r.erase(r.begin() + a); if (size_t(it - c.begin()) != a) rp::fail("erase-it", d); } break;
                case 6: { d += "@" + std::to_string(a) + ".." + std::to_string(b); rp::at(d); auto it = c.erase(c.begin() + a, c.begin() + b); r.erase(r.begin() + a, r.begin() + b); if (size_t(it - c.begin()) != a) rp::fail("erase-range-it", d); break; }
                case 7: if (IsObj<C>::v) { std::string k = keys[rp::rnd(5)]; d += "addMember " + k; rp::at(d); auto ds = addMember(c, k); dropKey("=" + k); r.emplace_back("=" + k, ds); } break;
                default: if (!rp::rnd(4)) { rp::at(d); c.clear(); r.clear(); } break;
            }
            std::vector<std::string> w; for (auto& p : r) w.push_back(p.second);
            std::vector<std::string> h; for (auto& p : static_cast<const C&>(c)) h.push_back(dump(p.get()));
            if (h != w) { rp::fail("state", d + ": have " + rp::list(h) + " want " + rp::list(w)); break; }
            if (c.size() != w.size() || c.empty() != w.empty() || size_t(c.end() - c.begin()) != w.size()) { rp::fail("size", d); break; }
            if (IsObj<C>::v) for (auto k : keys) { int x = std::find_if(r.begin(), r.end(), [&](const std::pair<std::string, std::string>& p) { return p.first == "=" + std::string(k); }) - r.begin(); if (find(c, k) != x) { rp::fail("find", d + " key " + k); break; } }
        }
    }
}
int main()
{
    run<dsd::Array>("array"); run<dsd::Object>("object"); run<dsd::Extend>("extend"); run<dsd::Option>("option"); run<dsd::Select>("select");
    return rp::done();
}
