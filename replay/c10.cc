// C10: media type serialization against a reference writer and a reader that recovers every value
// SOURCES: packages/drafter/src/backend/MediaTypeS11n.cc packages/apib/src/MediaType.cc
#include "common.h"
#include "backend/MediaTypeS11n.h"
#include <apib/syntax/MediaType.h>
static bool special(unsigned char c) { return std::strchr("()<>@,;:\\\"/[]?= ", c) || c < 32 || c == 127; }
static std::string val(const std::string& v)
{
    bool q = false; for (unsigned char c : v) if (special(c)) q = true;
    if (!q) return v;
    std::string r = "\""; for (char c : v) { if (c == '\\' || c == '"') { r += '\\'; r += c; } else if (c == '\r') r += "\\r"; else r += c; }
    return r + "\"";
}
static std::string unq(const std::string& w)
{
    if (w.empty() || w[0] != '"') return w;
    std::string r; for (size_t i = 1; i + 1 < w.size(); ++i) { if (w[i] == '\\') { ++i; r += w[i] == 'r' ? '\r' : w[i]; } else r += w[i]; }
    return r;
}
static void one(const apib::syntax::media_type& m)
{
    std::string d = rp::hex(m.type) + "/" + rp::hex(m.subtype) + "+" + rp::hex(m.suffix); for (auto& p : m.parameters) d += "; " + rp::hex(std::get<0>(p)) + "=" + rp::hex(std::get<1>(p)); rp::at(d);
    std::string e; if (!m.type.empty() && !m.subtype.empty()) { e = m.type + "/" + m.subtype; if (!m.suffix.empty()) e += "+" + m.suffix; for (auto& p : m.parameters) if (!std::get<0>(p).empty()) e += "; " + std::get<0>(p) + "=" + val(std::get<1>(p)); }
    std::ostringstream o; o << "x"; using apib::backend::operator<<; o << m;
    if (o.str() != "x" + e) { rp::fail("text", d + ": written " + rp::hex(o.str()) + ", expected " + rp::hex("x" + e)); return; }
    for (auto& p : m.parameters) if (unq(val(std::get<1>(p))) != std::get<1>(p)) rp::fail("value", d);
}
static std::string rs(size_t n, bool sp)
{
    std::string s; while (s.size() < n) switch (rp::rnd(sp ? 6 : 3)) { case 0: case 1: case 2: s += char("abcXYZ019-_.!#$%&'*+^`{|}~"[rp::rnd(27)]); break; case 3: s += char("()<>@,;:\\\"/[]?= \t\r\n"[rp::rnd(20)]); break; case 4: s += char(rp::rnd(256)); break; default: s += char("\\\"r\r"[rp::rnd(4)]); }
    return s;
}
int main()
{
    for (int c = 0; c < 256; ++c) { for (int k = 0; k < 3; ++k) { apib::syntax::media_type m; m.type = "a"; m.subtype = "b"; std::string v = k == 0 ? std::string(1, char(c)) : k == 1 ? "x" + std::string(1, char(c)) : std::string(1, char(c)) + "y"; m.parameters.emplace_back("k", v); one(m); } }
    for (long i = 0; i < rp::scale(120000, 4000000); ++i) {
        apib::syntax::media_type m; m.type = rs(rp::rnd(4), false); m.subtype = rs(rp::rnd(4), false); m.suffix = rs(rp::rnd(3), false);
        for (int k = rp::rnd(4); k > 0; --k) m.parameters.emplace_back(rs(rp::rnd(3), false), rs(rp::rnd(6), rp::rnd(3)));
        one(m);
    }
    return rp::done();
}
