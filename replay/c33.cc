// C33: text of reports against an independent rendering
// SOURCES: @REFRACT packages/drafter/src/reporting.cc packages/drafter/src/SourceMapUtils.cc
#include "refract.h"
#include "reporting.h"
const int snowcrash::SourceAnnotation::OK = 0; // its defining file needs the parser; the library's value
using namespace rf;
struct Cap { std::ostringstream o; std::streambuf* b; Cap() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Cap() { std::cerr.rdbuf(b); } };
static std::string where(const std::string& src, uint64_t loc, uint64_t len)
{
    std::vector<uint64_t> x{ 0 }; uint64_t n = 0;
    for (unsigned char c : src) { if ((c & 0xC0) != 0x80) ++n; if (c == '\n') x.push_back(n); }
    uint64_t fl = 0, fc = 0, tl = 0, tc = 0, end = loc + len;
    for (size_t k = 1; k < x.size(); ++k) if (x[k - 1] <= loc && loc < x[k]) { fl = k; fc = loc - x[k - 1] + 1; }
    if (end > x.back()) { tl = x.size(); tc = 1; }
    else for (size_t k = 1; k < x.size(); ++k) if (x[k - 1] < end && end <= x[k]) { tl = k; tc = end - x[k - 1]; }
    return "; line " + std::to_string(fl) + ", column " + std::to_string(fc) + " - line " + std::to_string(tl) + ", column " + std::to_string(tc);
}
static std::string source() { static const char* p[] = { "a", "bc", "\n", "\n", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "# x\n", " ", "\r\n" }; std::string s; for (int n = rp::rnd(14); n--;) { if (!rp::rnd(20)) s += '\0'; else s += p[rp::rnd(10)]; } return s; }
static std::string text() { static const char* p[] = { "", "message", "two words", "it's 100%", "\xC3\xA9", "a: b; c" }; return p[rp::rnd(6)]; }
// a number as a source map may hold it, with the value a reader of 64-bit integers takes from it
static std::string number(int64_t& v)
{
    switch (rp::rnd(10)) {
        case 0: v = 2147483648LL; return "2147483648";
        case 1: v = 5000000000LL; return "5000000000";
        case 2: v = INT64_MAX; return "99999999999999999999";
        case 3: v = 0; return rp::rnd(2) ? "x1" : "";
        case 4: { int64_t k = rp::rnd(30); v = k; return std::to_string(k) + (rp::rnd(2) ? ".5" : "e3"); }
        case 5: v = rp::rnd(9); return " +" + std::to_string(v);
        default: v = rp::rnd(40); return std::to_string(v);
    }
}
static Ptr num(const std::string& t) { auto e = make_empty<NumberElement>(); e->set(dsd::Number(t)); return std::move(e); }
static Ptr arr(std::vector<Ptr>&& v) { auto e = make_empty<ArrayElement>(); if (!v.empty() || rp::rnd(3)) { e->set(); for (auto& p : v) e->get().push_back(std::move(p)); } return std::move(e); }
static Ptr odd() { switch (rp::rnd(5)) { case 0: return make_element<NullElement>(); case 1: return from_primitive(std::string("s")); case 2: return num("7"); case 3: return make_empty<ObjectElement>(); default: return arr({}); } }
static Ptr other(int k) { Ptr e; do e = odd(); while (kindOf(e.get()) == k); return e; }
static Ptr odd_not_number() { return other(3); }
static Ptr odd_not_string() { return other(2); }
static Ptr odd_not_array() { return other(5); }
template <typename... P> static Ptr arrOf(P&&... p) { std::vector<Ptr> v; int x[] = { 0, (v.push_back(std::move(p)), 0)... }; (void)x; return arr(std::move(v)); }
static Ptr range(std::string& want, const std::string& src, bool ln)
{
    want.clear();
    switch (rp::rnd(9)) {
        case 0: return odd();
        case 1: return arrOf(num("1"));
        case 2: return arrOf(num("1"), num("2"), num("3"));
        case 3: return rp::rnd(2) ? arrOf(num("1"), odd_not_number()) : arrOf(odd_not_number(), num("2"));
    }
    int64_t a, b; std::string x = number(a), y = number(b);
    want = ln ? where(src, a, b) : x + ":" + y;
    return arrOf(num(x), num(y));
}
static Ptr annotation(std::string& want, const std::string& src, bool ln, bool named)
{
    want.clear();
    Ptr e; std::string m = text(); bool str = rp::rnd(6) != 0;
    if (str) { if (rp::rnd(12)) e = from_primitive(m); else { e = make_empty<StringElement>(); m = ""; } } else { int k; do k = rp::rnd(13); while (k == 2); GenOpt g; g.names = false; g.info = 0; e = gen(1, g, k); m = ""; }
    e->element(named ? "annotation" : rp::rnd(2) ? "annotations" : "string");
    std::string sev, code, map;
    switch (rp::rnd(7)) {
        case 0: break;
        case 1: e->meta().set("classes", arrOf(odd_not_string())); break;
        case 2: e->meta().set("classes", arrOf(from_primitive(std::string("error")), from_primitive(std::string("x")))); break;
        case 3: e->meta().set("classes", odd_not_array()); break;
        default: sev = rp::rnd(2) ? "error" : "warning"; e->meta().set("classes", arrOf(from_primitive(sev))); sev += ": ";
    }
    switch (rp::rnd(5)) {
        case 0: break;
        case 1: e->attributes().set("code", from_primitive(std::string("4"))); break;
        default: { std::string t = rp::rnd(3) ? std::to_string(rp::rnd(20)) : rp::rnd(2) ? "4000000000" : "1.5"; e->attributes().set("code", num(t)); code = "(" + t + ")  "; }
    }
    switch (rp::rnd(8)) {
        case 0: break;
        case 1: e->attributes().set("sourceMap", odd_not_array()); break;
        case 2: e->attributes().set("sourceMap", arrOf(odd_not_array())); break;
        case 3: e->attributes().set("sourceMap", arrOf(arrOf(arrOf(num("1"), num("2"))), arrOf(arrOf(num("1"), num("2"))))); break;
        default: {
            std::vector<Ptr> v; bool first = true;
            for (int n = rp::rnd(4); n--; first = false) { std::string w; v.push_back(range(w, src, ln)); map += (ln ? "" : first ? " :" : ";") + w; }
            e->attributes().set("sourceMap", arrOf(arr(std::move(v))));
        }
    }
    if (named) want = sev + code + m + map;
    return e;
}
static void result()
{
    std::string src = source(); bool ln = rp::rnd(2); int err = rp::rnd(2) ? 0 : rp::rnd(2) ? int(rp::rnd(9)) - 4 : 2;
    std::string want = err ? "\n" : "\nOK.\n", w;
    Ptr top; std::vector<Ptr> kids;
    for (int n = rp::rnd(5); n--;) {
        if (!rp::rnd(4)) { // not a direct child: not reported
            std::string x; Ptr in = annotation(x, src, ln, true);
            if (rp::rnd(2)) kids.push_back(arrOf(in)); else { auto h = make_element<HolderElement>(); h->set(dsd::Holder(std::move(in))); kids.push_back(std::move(h)); }
            continue;
        }
        bool named = rp::rnd(5); kids.push_back(annotation(w, src, ln, named)); if (named) want += w + "\n";
    }
    if (rp::rnd(4)) { auto e = make_empty<ArrayElement>(); e->set(); for (auto& k : kids) e->get().push_back(std::move(k)); top = std::move(e); }
    else { auto e = make_empty<ExtendElement>(); e->set(); for (auto& k : kids) e->get().push_back(std::move(k)); top = std::move(e); }
    top->element(rp::rnd(3) ? "parseResult" : "annotation");
    std::string d = "PrintReport(" + dump(top.get()) + ", " + rp::hex(src) + ", " + (ln ? "lines" : "offsets") + ", " + std::to_string(err) + ")"; rp::at(d);
    std::string got; { Cap c; PrintReport(top.get(), src, ln, err); got = c.o.str(); }
    if (got != want) rp::fail("result", d + " printed " + rp::hex(got) + ", expected " + rp::hex(want));
    std::string d2 = "PrintReport(" + dump(top.get()) + ", " + rp::hex(src) + ", " + (ln ? "lines" : "offsets") + ", " + std::to_string(err) + ")";
    if (d2 != d) rp::fail("changed", d);
}
static std::string one(const snowcrash::SourceAnnotation& a, const std::string& pre, const std::string& src, bool ln)
{
    std::string s = pre; if (a.code) s += " (" + std::to_string(a.code) + ") "; if (!a.message.empty()) s += " " + a.message;
    bool first = true;
    for (auto& r : a.location) { s += ln ? where(src, r.location, r.length) : (first ? " :" : ";") + std::to_string(r.location) + ":" + std::to_string(r.length); first = false; }
    return s + "\n";
}
static void report()
{
    std::string src = source(); bool ln = rp::rnd(2); snowcrash::Report r;
    auto fill = [&](snowcrash::SourceAnnotation& a, bool z) {
        a.code = z ? 0 : int(rp::rnd(25)) - 4; if (!rp::rnd(9)) a.code *= 100000000; a.message = text();
        for (int n = rp::rnd(4); n--;) { uint64_t b = rp::rnd(6) ? rp::rnd(40) : (uint64_t(1) << (31 + rp::rnd(32))); a.location.push_back(mdp::Range(b, rp::rnd(9) ? rp::rnd(30) : rp::rnd(uint64_t(1) << 40))); }
    };
    if (rp::rnd(2)) fill(r.error, rp::rnd(4) == 0);
    for (int n = rp::rnd(4); n--;) { snowcrash::Warning w; fill(w, !rp::rnd(4)); r.warnings.push_back(w); }
    std::string want = "\n"; want += r.error.code ? one(r.error, "error:", src, ln) : "OK.\n"; for (auto& w : r.warnings) want += one(w, "warning:", src, ln);
    std::string d = "PrintReport of a parser report: " + rp::hex(want) + " of " + rp::hex(src); rp::at(d);
    std::string got; { Cap c; PrintReport(r, src, ln); got = c.o.str(); }
    if (got != want) rp::fail("report", d + " printed " + rp::hex(got));
}
int main()
{
    for (long i = 0, n = rp::scale(25000, 400000); i < n; ++i) { result(); report(); }
    return rp::done();
}
