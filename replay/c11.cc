// C11: reserved names against the list of thirteen
// SOURCES: @REFRACT
#include "common.h"
#include "refract/Element.h"
static const char* N[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
static void one(const std::string& w)
{
    rp::at(rp::hex(w)); bool e = false; for (auto n : N) if (w == n) e = true;
    bool ez = false; for (auto n : N) if (!std::strcmp(w.c_str(), n)) ez = true;
    if (refract::isReserved(w) != e) rp::fail("string", "isReserved(" + rp::hex(w) + ") = " + (e ? "false" : "true"));
    if (refract::isReserved(w.c_str()) != ez) rp::fail("cstring", "isReserved(C string " + rp::hex(w) + ") = " + (ez ? "false" : "true"));
}
int main()
{
    one(""); one(" ");
    for (auto n : N) { std::string s = n; one(s);
        for (size_t i = 0; i <= s.size(); ++i) { one(s.substr(0, i)); one(s.substr(i)); for (int c = 0; c < 256; ++c) { std::string t = s; t.insert(i, 1, char(c)); one(t); if (i < s.size()) { t = s; t[i] = char(c); one(t); } } }
        for (auto k : N) { one(s + k); one(s + '\0' + k); } }
    for (long i = 0; i < rp::scale(100000, 3000000); ++i) { std::string s = N[rp::rnd(13)]; for (int k = rp::rnd(3); k >= 0; --k) if (!s.empty()) s[rp::rnd(s.size())] = "abcdefghijklmnopqrstuvwxyzABC"[rp::rnd(29)]; one(s); one(rp::bytes(rp::rnd(9), 0)); }
    return rp::done();
}
