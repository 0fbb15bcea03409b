// C09: media type classification against a full-string ASCII case-insensitive comparison
// SOURCES: packages/apib/src/MediaType.cc
#include "common.h"
#include <apib/syntax/MediaType.h>
static bool ieq(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) { unsigned char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; }
    return true;
}
static void one(const std::string& t, const std::string& s, const std::string& x, int np)
{
    apib::syntax::media_type m; m.type = t; m.subtype = s; m.suffix = x;
    for (int i = 0; i < np; ++i) m.parameters.emplace_back(i & 1 ? "charset" : "profile", i & 1 ? "utf-8" : "json");
    std::string d = rp::hex(t) + " / " + rp::hex(s) + " + " + rp::hex(x) + " with " + std::to_string(np) + " parameters"; rp::at(d);
    bool j = ieq(t, "application") && ieq(x.empty() ? s : x, "json"), k = ieq(t, "application") && ieq(s, "schema") && ieq(x, "json");
    if (apib::isJSON(m) != j) rp::fail("json", d + ": isJSON = " + (j ? "false" : "true"));
    if (apib::isJSONSchema(m) != k) rp::fail("schema", d + ": isJSONSchema = " + (k ? "false" : "true"));
}
static std::string mut(std::string s)
{
    for (size_t i = 0; i < s.size(); ++i) if (!rp::rnd(3) && s[i] >= 'a' && s[i] <= 'z') s[i] -= 32;
    switch (rp::rnd(12)) {
        case 0: if (!s.empty()) s[rp::rnd(s.size())] ^= 1 << rp::rnd(8); break;
        case 1: if (!s.empty()) s.pop_back(); break;
        case 2: s += char(rp::rnd(256)); break;
        case 3: s.insert(s.begin(), char(rp::rnd(256))); break;
        case 4: s += '\0'; s += "x"; break;
        case 5: if (!s.empty()) s[rp::rnd(s.size())] = char(rp::rnd(256)); break;
        default: break;
    }
    return s;
}
int main()
{
    const char* T[] = { "application", "", "text", "application/", "app" };
    const char* S[] = { "json", "schema", "", "hal", "json+schema", "xml", "jsonx", "vnd.api" };
    const char* X[] = { "", "json", "schema", "xml", "hal+json" };
    for (auto t : T) for (auto s : S) for (auto x : X) for (int n = 0; n < 3; ++n) one(t, s, x, n);
    // every single-byte change of the names
    for (int w = 0; w < 4; ++w) { std::string b[] = { "application", "json", "schema", "json" }; for (size_t i = 0; i < b[w].size(); ++i) for (int c = 0; c < 256; ++c) { std::string y = b[w]; y[i] = char(c);
        if (w == 0) { one(y, "json", "", 0); one(y, "schema", "json", 0); } else if (w == 1) one("application", y, "", 1); else if (w == 2) one("application", y, "json", 0); else { one("application", "schema", y, 0); one("application", "hal", y, 0); } } }
    for (long i = 0; i < rp::scale(300000, 10000000); ++i) one(mut(T[rp::rnd(3) ? 0 : rp::rnd(5)]), mut(S[rp::rnd(2) ? rp::rnd(2) : rp::rnd(8)]), mut(X[rp::rnd(2) ? rp::rnd(2) : rp::rnd(5)]), rp::rnd(3));
    return rp::done();
}
