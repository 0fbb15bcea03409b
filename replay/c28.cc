// SOURCES:
// patterns and targets (malformed ones and ones with zero bytes included) against <regex.h> called directly; the library calls of
// the code are counted, and made to fail on demand
#include "common.h"
#include "RegexMatch.h"
#include <map>
#include <regex.h>
static std::map<regex_t*, int> live_; static int compfail = 0, execfail = 0; static bool counting = false; static long badfree = 0;
static int t_regcomp(regex_t* r, const char* p, int f)
{
    if (counting && compfail) return compfail;
    int x = regcomp(r, p, f); if (counting && !x) ++live_[r]; return x;
}
static int t_regexec(const regex_t* r, const char* s, size_t n, regmatch_t* m, int f) { return counting && execfail ? execfail : regexec(r, s, n, m, f); }
static void t_regfree(regex_t* r) { if (counting) { auto i = live_.find(r); if (i == live_.end()) { ++badfree; return; } if (!--i->second) live_.erase(i); } regfree(r); }
// the code under test, with its calls into the library observed
#define regcomp t_regcomp
#define regexec t_regexec
#define regfree t_regfree
#include "snowcrash/posix/RegexMatch.cc"
#undef regcomp
#undef regexec
#undef regfree
static std::string show(const std::vector<std::string>& v) { std::string s = "["; for (auto& x : v) s += rp::hex(x) + ","; return s + "]"; }
static void one(const std::string& t, const std::string& e, size_t n, int cf, int ef)
{
    std::string d = "target " + rp::hex(t) + " expression " + rp::hex(e) + " groups " + std::to_string(n) + (cf ? " regcomp fails with " + std::to_string(cf) : "") + (ef ? " regexec fails with " + std::to_string(ef) : ""); rp::at(d);
    bool ok = false, toomany = n > (size_t(1) << 40); std::vector<std::string> want, w2; 
    if (!t.empty() && !e.empty() && !cf && !ef) {
        regex_t r; counting = false;
        if (!regcomp(&r, e.c_str(), REG_EXTENDED)) {
            std::vector<regmatch_t> m(toomany ? 2 : n + 2);
            ok = !regexec(&r, t.c_str(), m.size(), m.data(), 0);
            if (ok) { std::string z = t.c_str(); for (size_t i = 0; i < m.size(); ++i) w2.push_back(m[i].rm_so < 0 ? std::string() : z.substr(m[i].rm_so, m[i].rm_eo - m[i].rm_so)); if (!toomany) want.assign(w2.begin(), w2.begin() + n); }
            regfree(&r);
        }
    }
    auto bal = [&](const char* k) { if (!live_.empty() || badfree) { rp::fail(std::string(k) + (badfree ? "-free" : "-leak"), d + (badfree ? ": an expression that is not compiled is released" : ": a compiled expression is not released")); live_.clear(); badfree = 0; } };
    counting = true; compfail = cf; execfail = ef;
    bool m = snowcrash::RegexMatch(t, e); counting = false; bal("match");
    if (m != ok) rp::fail("match", d + ": returned " + std::to_string(m));
    counting = true; std::string f = snowcrash::RegexCaptureFirst(t, e); counting = false; bal("first");
    if (f != (ok ? w2[1] : std::string())) rp::fail("first", d + ": returned " + rp::hex(f));
    snowcrash::CaptureGroups g; for (int k = rp::rnd(4); k--;) g.push_back("stale");
    counting = true; bool c = snowcrash::RegexCapture(t, e, g, n); counting = false; bal("capture");
    bool wc = ok && !toomany;
    if (c != wc) rp::fail("capture", d + ": returned " + std::to_string(c));
    else if (g != want) rp::fail(wc ? "groups" : "stale", d + ": groups " + show(g) + " want " + show(want));
    if (!toomany) { // and with the default number
        counting = true; g.assign(2, "stale"); c = snowcrash::RegexCapture(t, e, g); counting = false; bal("default");
        if (c != ok || g.size() != (ok ? 8u : 0u)) rp::fail("default", d + ": " + show(g)); else for (size_t i = 0; i < 8 && i < w2.size(); ++i) if (ok && g[i] != w2[i]) { rp::fail("default", d + ": " + show(g)); break; }
    }
}
int main()
{
    static const char* es[] = { "", "a", "(a)(b)?", "^(GET|POST)[[:blank:]]+(.*)$", "(", ")", "[", "a{2", "*", "(a*)+", "((a)|(b))*", "^$", "x|(y)", ".*", "(.)(.)(.)(.)(.)(.)(.)(.)(.)", "\\", "[[:alpha:]]+", "[[:foo:]]", "b{1,3}", "(^|x)(a|ab)(c|bcd)(d*)$", "\\.", "a\\1", "(a)\\1", "\xC3\xA9", "[^a]", "a$" };
    static const char* ts[] = { "", "a", "ab", "GET  /x/{y}", "abcd", "aa", "b", "xyz", "\n", "ABCDEFGHI", "\xC3\xA9 x", "abab", " POST", "a.b\\c" };
    for (auto e : es) for (auto t : ts) for (size_t n : { size_t(0), size_t(1), size_t(2), size_t(3), size_t(8), size_t(12) }) one(t, e, n, 0, 0);
    for (auto t : ts) for (auto e : { "a", "(a)(b)?", "(" }) { for (int c : { REG_ESPACE, REG_BADPAT }) one(t, e, 3, c, 0); for (int c : { REG_ESPACE, REG_NOMATCH }) one(t, e, 3, 0, c); one(t, e, size_t(1) << 62, 0, 0); one(t, e, ~size_t(0), 0, 0); }
    static const char al[] = "aabbx()[]|*+?{}^$.\\1, -:";
    for (long i = 0, k = rp::scale(100000, 2000000); i < k; ++i) {
        std::string t, e;
        for (int q = rp::rnd(9); q--;) e += rp::rnd(5) ? al[rp::rnd(sizeof al - 1)] : "ab"[rp::rnd(2)];
        if (!rp::rnd(3)) for (int q = 1 + rp::rnd(3); q--;) { static const char* pc[] = { "(a|b)", "(x)?", "(a*)", "(.)", "b+", "^", "$", "((b)a)*" }; e += pc[rp::rnd(8)]; }
        for (int q = rp::rnd(10); q--;) t += rp::rnd(12) ? "abx"[rp::rnd(3)] : char(rp::rnd(256));
        if (!rp::rnd(20)) e.insert(rp::rnd(e.size() + 1), 1, '\0');
        one(t, e, rp::rnd(11), rp::rnd(40) ? 0 : REG_ESPACE, rp::rnd(40) ? 0 : 1 + rp::rnd(12));
    }
    return rp::done();
}
